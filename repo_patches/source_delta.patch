From 82834d4feb95a09b1667314b140724e159a1492d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:24 +0000
Subject: [PATCH 001/118] fix: toTree no longer treats inherited property names
 as root or known ids

---
 packages/array/src/convert/toTree.ts | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/packages/array/src/convert/toTree.ts b/packages/array/src/convert/toTree.ts
index 10561a5..3ff2061 100644
--- a/packages/array/src/convert/toTree.ts
+++ b/packages/array/src/convert/toTree.ts
@@ -49,6 +49,17 @@ const getNestedProperty = (item: Item, nestedProperty: string) => {
     return current;
 };
 
+/**
+ * 判断给定的 `id` 是否是根元素的 `parentId`，只检查自有属性，避免将 `constructor` 等原型链上的属性误判为根元素
+ *
+ * @param rootParentIds 根元素的 `parentId` 集合
+ * @param id 要判断的 `id`
+ */
+const isRootParentId = (
+    rootParentIds: ToTreeOptions['rootParentIds'],
+    id: PropertyKey
+) => hasOwnProperty(rootParentIds, id) && rootParentIds[id];
+
 /**
  * 将给定的数组转换为一个树型对象
  *
@@ -109,7 +120,7 @@ export default function toTree(
     const rootItems: TreeItem[] = [];
 
     // 存储所有已处理的项，使用它们的 `id` 作为键，以便于查找
-    const lookup: { [id: string]: TreeItem } = {};
+    const lookup: { [id: string]: TreeItem } = Object.create(null);
 
     // 存储所有尚未添加到结果树中的项的 `id`
     // 这是一个可选属性，因为它有轻微的运行时开销
@@ -133,7 +144,7 @@ export default function toTree(
             parentId = item[pid];
         }
 
-        if (rootParentIds[itemId]) {
+        if (isRootParentId(rootParentIds, itemId)) {
             throw new Error(
                 `items 数组中包含一个节点，它的 parentId 既存在于另一个节点中又在 rootParentIds 中。` +
                     `{itemId: "${itemId}", rootParentIds: ${JSON.stringify(Object.keys(rootParentIds))}}`
@@ -167,7 +178,7 @@ export default function toTree(
 
         const treeItem = lookup[itemId];
 
-        if (parentId == null || rootParentIds[parentId]) {
+        if (parentId == null || isRootParentId(rootParentIds, parentId)) {
             // 是一个根项
             rootItems.push(treeItem);
         } else {
-- 
2.43.0


From f7d25282ecc283c27ef4dddc93bc32af4767a8b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:57 +0000
Subject: [PATCH 002/118] fix: createCookie no longer adds Max-Age=0 when no
 maximum age is given

---
 packages/cookie/src/cookie/create.ts | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/packages/cookie/src/cookie/create.ts b/packages/cookie/src/cookie/create.ts
index 0f9c9a0..5f63398 100644
--- a/packages/cookie/src/cookie/create.ts
+++ b/packages/cookie/src/cookie/create.ts
@@ -4,7 +4,8 @@ import {
     isFunctionFilled,
     isString,
     isStringFilled,
-    isTrue
+    isTrue,
+    isUndefined
 } from '@curong/types';
 
 import type { CreateCookieOptions } from './types';
@@ -69,7 +70,8 @@ export default function createCookie(
         [key: string]: (value: any, chunk: string[]) => string[];
     } = {
         maxAge(v: number, chunk: string[]) {
-            chunk.push(`Max-Age=${isFinite(v) ? Math.floor(v) : 0}`);
+            !isUndefined(v) &&
+                chunk.push(`Max-Age=${isFinite(v) ? Math.floor(v) : 0}`);
             return chunk;
         },
 
-- 
2.43.0


From b2452b1d15abe1a73b13e0e46caeabac3354dac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:57 +0000
Subject: [PATCH 003/118] fix: parseCookie keeps '=' inside values and ignores
 segments without '='

---
 packages/cookie/src/cookie/parse.ts | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/packages/cookie/src/cookie/parse.ts b/packages/cookie/src/cookie/parse.ts
index 5cde997..be941f5 100644
--- a/packages/cookie/src/cookie/parse.ts
+++ b/packages/cookie/src/cookie/parse.ts
@@ -80,18 +80,21 @@ export default function parseCookie(
     ) {
         switch (cookie[i]) {
             case '=':
-                key = cookie.slice(star, i).trim();
-                star = i + 1;
+                // 只有第一个等号用来分隔键和值，后面的等号是值的一部分
+                if (!isString(key)) {
+                    key = cookie.slice(star, i).trim();
+                    star = i + 1;
+                }
                 break;
 
             case ';':
-                value = getDecode(cookie.slice(star, i), decode);
+                // 没有等号的片段不是键值对，直接忽略
+                if (isString(key)) {
+                    value = getDecode(cookie.slice(star, i), decode);
+                }
+
                 star = i + 1;
                 break;
-
-            // NOTE: 逻辑是否正确呢?
-            case '\n':
-                continue;
         }
 
         if (isString(key)) {
-- 
2.43.0


From af1b0c50de92372bc6cb9bac6aabfd813eda96ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:57 +0000
Subject: [PATCH 004/118] fix: parseSetCookie accepts attributes without a
 value such as Secure

---
 packages/cookie/src/setCookie/constants.ts | 3 +++
 packages/cookie/src/setCookie/parse.ts     | 5 +++--
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/packages/cookie/src/setCookie/constants.ts b/packages/cookie/src/setCookie/constants.ts
index 01e37aa..6105e95 100644
--- a/packages/cookie/src/setCookie/constants.ts
+++ b/packages/cookie/src/setCookie/constants.ts
@@ -15,3 +15,6 @@ export const semicolonReg = / *; */;
 
 /** 等号正则表达式 */
 export const equalReg = / *= */;
+
+/** 没有值的属性正则表达式 */
+export const flagReg = /^(?:secure|httponly|partitioned)$/i;
diff --git a/packages/cookie/src/setCookie/parse.ts b/packages/cookie/src/setCookie/parse.ts
index 2767dc0..ae5ec89 100644
--- a/packages/cookie/src/setCookie/parse.ts
+++ b/packages/cookie/src/setCookie/parse.ts
@@ -1,6 +1,6 @@
 import { isStringFilled } from '@curong/types';
 
-import { EQUAL, equalReg, semicolonReg } from './constants';
+import { EQUAL, equalReg, flagReg, semicolonReg } from './constants';
 import type {
     ParseSetCookieOptions,
     SetCookieItem,
@@ -80,7 +80,8 @@ function parseChunk(cookie: string, isDecode: boolean = true) {
     return parts.reduce((cookie: SetCookieItem, part: string) => {
         const sides = part.split(equalReg);
 
-        if (sides.length <= 1) {
+        // `Secure`、`HttpOnly` 等属性没有值
+        if (sides.length <= 1 && !flagReg.test(part)) {
             throw new EvalError(
                 `[parseChunk]: part使用等号拆分却只拆分出来一个值出来，"${part}"`
             );
-- 
2.43.0


From aeaf2d49529061c274c3ff8368fae07d891d17b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:57 +0000
Subject: [PATCH 005/118] fix: splitSetCookie skips blanks after the separating
 comma

---
 packages/cookie/src/setCookie/split.ts | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/packages/cookie/src/setCookie/split.ts b/packages/cookie/src/setCookie/split.ts
index e371fcf..3ae7ec4 100644
--- a/packages/cookie/src/setCookie/split.ts
+++ b/packages/cookie/src/setCookie/split.ts
@@ -2,14 +2,6 @@ import { isStringFilled } from '@curong/types';
 
 import { COMMA, EQUAL, SEMICOLON, whiteSpaceReg } from './constants';
 
-const skipSpace = (cookie: string, index: number) => {
-    while (index < cookie.length && whiteSpaceReg.test(cookie.charAt(index))) {
-        index += 1;
-    }
-
-    return index < cookie.length;
-};
-
 /**
  * 将以逗号合并在一起的 `set-cookie` 字符串转换为 `set-cookie` 字符串数组
  *
@@ -47,6 +39,17 @@ export default function splitSetCookie(cookie: string): string[] {
     let nextStart: number;
     let isSep: boolean;
 
+    const skipSpace = () => {
+        while (
+            index < cookie.length &&
+            whiteSpaceReg.test(cookie.charAt(index))
+        ) {
+            index += 1;
+        }
+
+        return index < cookie.length;
+    };
+
     const isSpecial = () => {
         char = cookie.charAt(index);
         return char !== EQUAL && char !== SEMICOLON && char !== COMMA;
@@ -56,13 +59,13 @@ export default function splitSetCookie(cookie: string): string[] {
         start = index;
         isSep = false;
 
-        while (skipSpace(cookie, index)) {
+        while (skipSpace()) {
             char = cookie.charAt(index);
             if (char === COMMA) {
                 last = index;
                 index += 1;
 
-                skipSpace(cookie, index);
+                skipSpace();
                 nextStart = index;
 
                 while (index < cookie.length && isSpecial()) {
-- 
2.43.0


From cb0b1c550d537ca3363f78703e553d9b53d9f533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:26 +0000
Subject: [PATCH 006/118] fix: select passes its arguments to the condition
 function

---
 packages/function/src/select/select.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/function/src/select/select.ts b/packages/function/src/select/select.ts
index a712db0..7341a3f 100644
--- a/packages/function/src/select/select.ts
+++ b/packages/function/src/select/select.ts
@@ -24,7 +24,7 @@ export default async function select<A extends unknown[], T>(
     doElse?: ((...args: A) => any) | Promise<any> | T | null | undefined,
     ...args: A
 ): Promise<T | null | undefined> {
-    return (await executeToPromise(condition))
+    return (await executeToPromise(condition, args))
         ? executeToPromise(doIf, args)
         : executeToPromise(doElse, args);
 }
-- 
2.43.0


From 0e8eced5f749d1618e7dc9ec93ea751e56fdffe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:26 +0000
Subject: [PATCH 007/118] fix: cancelExec passes its arguments to the function

---
 packages/function/src/control/cancelExec.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/function/src/control/cancelExec.ts b/packages/function/src/control/cancelExec.ts
index 256c3eb..d8810c0 100644
--- a/packages/function/src/control/cancelExec.ts
+++ b/packages/function/src/control/cancelExec.ts
@@ -42,7 +42,7 @@ export default function cancelExec<R, A extends unknown[]>(
 
     return [
         Promise.race([
-            toPromise(callable),
+            toPromise(callable, args),
             new Promise(resolve => {
                 abort = payload => resolve(toPromise(payload, args));
             })
-- 
2.43.0


From 4791f01caa1b9a81d0604b10176bfa07fb34b7c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:26 +0000
Subject: [PATCH 008/118] fix: currying accepts several arguments in later
 calls too

---
 packages/function/src/currying.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/function/src/currying.ts b/packages/function/src/currying.ts
index 0146f95..88c4155 100644
--- a/packages/function/src/currying.ts
+++ b/packages/function/src/currying.ts
@@ -93,7 +93,7 @@ function currying(fn: (...args: any[]) => any): (...args: any[]) => any {
     return function curried(...args: any[]) {
         return args.length >= depth
             ? fn.apply(fn, args)
-            : (arg: any) => curried(...args, arg);
+            : (...rest: any[]) => curried(...args, ...rest);
     };
 }
 
-- 
2.43.0


From bc685f30159faf4bd909ec72e519a4895ea9b071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:26 +0000
Subject: [PATCH 009/118] fix: collectItems closes a batch before waiting for
 it

---
 packages/function/src/control/collectItems.ts | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/packages/function/src/control/collectItems.ts b/packages/function/src/control/collectItems.ts
index 91c3b3b..92d7938 100644
--- a/packages/function/src/control/collectItems.ts
+++ b/packages/function/src/control/collectItems.ts
@@ -87,17 +87,18 @@ export default function collectItems(options?: any) {
             ((isUndefined(total) && isDoneOnce) ||
                 (isUint(total) && !(promises.length % total)))
         ) {
-            return await Promise.all(promises).then(value => {
-                if (!isRestart) {
-                    isOverOnce = true;
-                }
+            // 在等待之前就结束本批次，避免丢失或重复收集在等待期间传递的 `Promise`
+            const batch = promises.slice();
 
-                if (!isAccumulate) {
-                    promises.length = 0;
-                }
+            if (!isRestart) {
+                isOverOnce = true;
+            }
 
-                return { done: true, value };
-            });
+            if (!isAccumulate) {
+                promises.length = 0;
+            }
+
+            return { done: true, value: await Promise.all(batch) };
         }
 
         return { done: false, value: void 0 };
-- 
2.43.0


From fb8378e1c22f6b2dfe842a31e5995e80ff8720f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:26 +0000
Subject: [PATCH 010/118] fix: timeoutOr clears its timer when the function
 fails

---
 packages/function/src/timeout/timeoutOr.ts | 25 ++++++++++++----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/packages/function/src/timeout/timeoutOr.ts b/packages/function/src/timeout/timeoutOr.ts
index bcc91d2..872679b 100644
--- a/packages/function/src/timeout/timeoutOr.ts
+++ b/packages/function/src/timeout/timeoutOr.ts
@@ -32,15 +32,18 @@ export default async function timeoutOr<A extends unknown[], R1, R2>(
     ...args: A
 ) {
     let timer;
-    const ret = await Promise.race([
-        toPromise(callable, args),
-        new Promise(resolve => {
-            timer = setTimeout(
-                () => resolve(executeToPromise(callback, args)),
-                timeoutMsResolve(duration)
-            );
-        })
-    ]);
-    clearTimeout(timer);
-    return ret;
+
+    try {
+        return await Promise.race([
+            toPromise(callable, args),
+            new Promise(resolve => {
+                timer = setTimeout(
+                    () => resolve(executeToPromise(callback, args)),
+                    timeoutMsResolve(duration)
+                );
+            })
+        ]);
+    } finally {
+        clearTimeout(timer);
+    }
 }
-- 
2.43.0


From decb0b4505c2f07637f38cc05f662c887ad4685c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:26 +0000
Subject: [PATCH 011/118] fix: nextTick observer fallback runs every callback
 exactly once

---
 packages/function/src/timeout/nextTick.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/function/src/timeout/nextTick.ts b/packages/function/src/timeout/nextTick.ts
index 3b6c1e0..3d3b032 100644
--- a/packages/function/src/timeout/nextTick.ts
+++ b/packages/function/src/timeout/nextTick.ts
@@ -21,7 +21,7 @@ const byObserver = (
 
         if (!queue) {
             if (!currentQueue) return;
-            queue = currentQueue;
+            queue = currentQueue.slice(i);
         } else if (currentQueue) {
             queue = currentQueue.slice(i).concat(queue);
         }
@@ -39,7 +39,7 @@ const byObserver = (
 
         node.data = `${(bit = ++bit % 2)}`;
 
-        while (i < currentQueue.length) {
+        while (currentQueue && i < currentQueue.length) {
             callback = currentQueue[i];
             i++;
             if (i === currentQueue.length) currentQueue = null;
-- 
2.43.0


From 785f63ff9596cbb9fe9f3ae919ad6afed6ec83d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:36 +0000
Subject: [PATCH 012/118] fix: amountInWords rejects amounts in other notations
 and writes zeros as documented

---
 packages/number/src/amount/amountInWords.ts | 52 ++++++++++-----------
 1 file changed, 26 insertions(+), 26 deletions(-)

diff --git a/packages/number/src/amount/amountInWords.ts b/packages/number/src/amount/amountInWords.ts
index 4a5b7b9..baca21b 100644
--- a/packages/number/src/amount/amountInWords.ts
+++ b/packages/number/src/amount/amountInWords.ts
@@ -10,12 +10,15 @@ const FRACTION_UNITS = ['角', '分', '厘', '毫'];
 const MAX_INT_LENGTH = 14;
 const MAX_DECIMAL_LENGTH = FRACTION_UNITS.length;
 
+/** 匹配十进制的金额，不匹配科学计数法、十六进制等其他形式 */
+const AMOUNT_REG_EXP = /^[+-]?\d*\.?\d*$/;
+
 const isNilNumber = (value: number) => isZero(value) || isNaN(value);
 
 /** 转换整数部分 */
 const convertInteger = (amount: string): string => {
     const parts = amount.split('.');
-    const integer = parts[0].replace('-', '');
+    const integer = parts[0].replace(/^[+-]?0*/, '');
     const integerNumbers = parseInt(integer) ? integer.split('').reverse() : [];
 
     if (integerNumbers.length > MAX_INT_LENGTH) {
@@ -61,13 +64,8 @@ const convertInteger = (amount: string): string => {
 const convertDecimal = (amount: string): string => {
     const result: string[] = [];
     const parts = amount.split('.');
-    const integer = parseInt(parts[0].replace('-', ''));
-    let decimal = parts[1] ?? '';
-
-    if (isNilNumber(parseInt(decimal))) {
-        decimal = '';
-    }
-
+    const integer = parseInt(parts[0].replace(/^[+-]/, ''));
+    const decimal = (parts[1] ?? '').replace(/0+$/, '');
     const decimalNumbers = decimal.split('');
 
     if (decimalNumbers.length > MAX_DECIMAL_LENGTH) {
@@ -76,28 +74,30 @@ const convertDecimal = (amount: string): string => {
         );
     }
 
-    const angle = parseInt(decimalNumbers.shift() ?? '');
-    const dnl = decimalNumbers.filter(n => !!n).length;
+    // 连续的多个 0 只写一个零字，没有整数部分时前面的 0 不用写
+    let written = !!integer;
+    let zero = false;
+
+    for (const key in decimalNumbers) {
+        const number = parseInt(decimalNumbers[key]);
 
-    if (angle) {
-        result.push(DIGIT_UNITS[angle], FRACTION_UNITS[0]);
+        if (isZero(number)) {
+            zero = written;
+            continue;
+        }
 
-        if (isZero(dnl)) {
-            result.push('整');
+        if (zero) {
+            result.push(DIGIT_UNITS[0]);
         }
-    } else if (dnl > 0 && integer) {
-        result.push(DIGIT_UNITS[0]);
-    }
 
-    for (const key in decimalNumbers) {
-        const number = decimalNumbers[key];
+        result.push(DIGIT_UNITS[number], FRACTION_UNITS[+key]);
+        written = true;
+        zero = false;
+    }
 
-        if (number) {
-            result.push(
-                DIGIT_UNITS[parseInt(number)],
-                FRACTION_UNITS[parseInt(key) + 1]
-            );
-        }
+    // 到角为止的金额需要写整字
+    if (decimalNumbers.length === 1) {
+        result.push('整');
     }
 
     return result.join('');
@@ -142,7 +142,7 @@ export default function amountInWords(
 ): string {
     const { prefix = '', negative = '负' } = options;
 
-    if (!isFinite(+amount)) {
+    if (!isFinite(+amount) || !AMOUNT_REG_EXP.test(`${amount}`.trim())) {
         throw new TypeError(
             `[amountInWords] amount 必须为有效的金额数字或字符串: ${amount}`
         );
-- 
2.43.0


From bf55e8e1028b98309eb05bbcbcdb726dc0177b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:05 +0000
Subject: [PATCH 013/118] fix: withDelimiter inserts the delimiter literally

---
 packages/number/src/withDelimiter.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/number/src/withDelimiter.ts b/packages/number/src/withDelimiter.ts
index b26a320..f699907 100644
--- a/packages/number/src/withDelimiter.ts
+++ b/packages/number/src/withDelimiter.ts
@@ -42,7 +42,7 @@ export default function withDelimiter(
     const [integerPart, decimalPart] = numStr.split('.');
 
     const regex = new RegExp(`\\B(?=(\\d{${capacity}})+(?!\\d))`, 'g');
-    const integerWithCommas = integerPart.replace(regex, delimiter);
+    const integerWithCommas = integerPart.replace(regex, () => delimiter);
 
     return decimalPart
         ? `${integerWithCommas}.${decimalPart}`
-- 
2.43.0


From 4f80d4a1a15d53e8819d373f2714c6d1579f5e40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:29 +0000
Subject: [PATCH 014/118] fix: fromCascadeKeys keeps the second of two keys and
 leaves the array alone

---
 packages/object/src/cascade/fromCascadeKeys.ts | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/packages/object/src/cascade/fromCascadeKeys.ts b/packages/object/src/cascade/fromCascadeKeys.ts
index ae34cba..affa80b 100644
--- a/packages/object/src/cascade/fromCascadeKeys.ts
+++ b/packages/object/src/cascade/fromCascadeKeys.ts
@@ -56,18 +56,16 @@ export default function fromCascadeKeys(
     }
 
     // 获取到第一项
-    let first = addPack(keys.shift()!, oc, false);
+    let first = addPack(keys[0], oc, false);
 
     // 如果不需要给第一项的开头加 `.`
     if (!startDot && first.startsWith('.')) {
         first = first.slice(1);
     }
 
-    // 如果属性数组中只有一项，则直接返回
-    if (keys.length === 1) {
-        return first;
-    }
-
     // 遍历剩余项
-    return keys.reduce((m, k) => (m.push(addPack(k, oc)), m), [first]).join('');
+    return keys
+        .slice(1)
+        .reduce((m, k) => (m.push(addPack(k, oc)), m), [first])
+        .join('');
 }
-- 
2.43.0


From 11d82944fcb67feda3af6794c3e89bfd4c956789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:29 +0000
Subject: [PATCH 015/118] fix: fromCascadeKeys writes keys that are not
 identifiers as quoted keys

---
 packages/object/src/cascade/fromCascadeKeys.ts | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/packages/object/src/cascade/fromCascadeKeys.ts b/packages/object/src/cascade/fromCascadeKeys.ts
index affa80b..367dedb 100644
--- a/packages/object/src/cascade/fromCascadeKeys.ts
+++ b/packages/object/src/cascade/fromCascadeKeys.ts
@@ -15,7 +15,7 @@ const addPack = (
 
     //# 处理字符串
 
-    if (/^[^0-9][\w$]*$/.test(key)) {
+    if (/^[\p{ID_Start}$_][\w$]*$/u.test(key)) {
         return isAppendWen ? `${optionalChar}.${key}` : `.${key}`;
     }
 
@@ -23,6 +23,11 @@ const addPack = (
         return `[${key}]`;
     }
 
+    // 不能直接放在单引号中的字符串
+    if (/['\\\n\r]/.test(key)) {
+        return `[${JSON.stringify(key)}]`;
+    }
+
     return `['${key}']`;
 };
 
-- 
2.43.0


From ab23ea4dfc4e48e332a38bbe45e6128c70af05cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:29 +0000
Subject: [PATCH 016/118] fix: toCascadeKeys accepts 0 as a dependency and
 reads characters beyond the BMP

---
 packages/object/src/cascade/toCascadeKeys.ts | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/packages/object/src/cascade/toCascadeKeys.ts b/packages/object/src/cascade/toCascadeKeys.ts
index c77c680..52ea9f3 100644
--- a/packages/object/src/cascade/toCascadeKeys.ts
+++ b/packages/object/src/cascade/toCascadeKeys.ts
@@ -1,4 +1,3 @@
-import { chars } from '@curong/string';
 import { format } from '@curong/term';
 import { isArrayIndex } from '@curong/types';
 
@@ -36,7 +35,6 @@ export default function toCascadeKeys(
     let tmpKey = '';
 
     const name = 'toCascadeKeys';
-    const charsArray = chars(value);
     const pushK = (key: string) => (key = key.trimEnd()) && ret.push(key);
 
     const vKey = (key: string) => {
@@ -68,7 +66,8 @@ export default function toCascadeKeys(
 
         const v = dependencies[key];
 
-        if (!v) {
+        // 下标 `0` 是有效的值
+        if (!v && v !== 0) {
             throw format({
                 name,
                 message: `"${key}" 属性并未在 dependencies 参数中定义`,
@@ -79,8 +78,8 @@ export default function toCascadeKeys(
         return v;
     };
 
-    for (let i = 0, m = -1, len = charsArray.length; i < len; i++) {
-        const char = charsArray[i];
+    for (let i = 0, m = -1, len = value.length; i < len; i++) {
+        const char = value[i];
 
         switch (char) {
             case '.':
-- 
2.43.0


From 0264f61b88b4b2e6dcd54fe6b108578356a0b29f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:29 +0000
Subject: [PATCH 017/118] fix: sortKeys leaves nested values alone unless deep
 sorting is asked for

---
 packages/object/src/keys/sortKeys.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/object/src/keys/sortKeys.ts b/packages/object/src/keys/sortKeys.ts
index 5d13a51..e3d077b 100644
--- a/packages/object/src/keys/sortKeys.ts
+++ b/packages/object/src/keys/sortKeys.ts
@@ -88,7 +88,7 @@ export default function sortKeys(
                 ...descriptor,
                 ...(get || set
                     ? { get, set }
-                    : { value: processValue(object[key]) })
+                    : { value: deep ? processValue(object[key]) : object[key] })
             });
         }
 
-- 
2.43.0


From da493efc83f21e37d42c13833c8eee7c9e5b2c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:29 +0000
Subject: [PATCH 018/118] fix: numeric keys are found by isKeysIncludes and
 derive, deleteAttrs leaves its key list alone

---
 packages/object/src/deleteAttrs.ts         | 3 +++
 packages/object/src/derive.ts              | 7 +++++--
 packages/object/src/keys/isKeysIncludes.ts | 9 ++++++---
 3 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/packages/object/src/deleteAttrs.ts b/packages/object/src/deleteAttrs.ts
index c0fd294..32c570e 100644
--- a/packages/object/src/deleteAttrs.ts
+++ b/packages/object/src/deleteAttrs.ts
@@ -24,6 +24,9 @@ export default function deleteAttrs<T extends ObjectType>(
 ): T {
     let key: PropertyKey | undefined;
 
+    // 不要更改传递的数组
+    deleteKeys = deleteKeys.slice();
+
     while (!isUndefined((key = deleteKeys.pop()))) {
         if (!Reflect.deleteProperty(obj, key)) {
             deleteKeys.push(key as keyof T);
diff --git a/packages/object/src/derive.ts b/packages/object/src/derive.ts
index 15e0260..f7b66bf 100644
--- a/packages/object/src/derive.ts
+++ b/packages/object/src/derive.ts
@@ -1,4 +1,4 @@
-import { isUndefined } from '@curong/types';
+import { isNumber, isUndefined } from '@curong/types';
 
 import type { ObjectType } from './types';
 
@@ -28,7 +28,10 @@ export default function derive<T extends ObjectType>(
     deleteKeys?: Array<keyof T>
 ) {
     const ret = Object.create(Object.getPrototypeOf(obj));
-    const keysSet: Set<PropertyKey> = new Set(deleteKeys);
+    // 数字类型的属性名实际上是字符串
+    const keysSet: Set<PropertyKey> = new Set(
+        deleteKeys?.map(k => (isNumber(k) ? `${k}` : k))
+    );
     const objKeys = Reflect.ownKeys(obj);
     let key: PropertyKey | undefined;
 
diff --git a/packages/object/src/keys/isKeysIncludes.ts b/packages/object/src/keys/isKeysIncludes.ts
index 094918e..5e3d572 100644
--- a/packages/object/src/keys/isKeysIncludes.ts
+++ b/packages/object/src/keys/isKeysIncludes.ts
@@ -1,4 +1,4 @@
-import { isBoolean } from '@curong/types';
+import { isBoolean, isNumber } from '@curong/types';
 
 import keys from './keys';
 
@@ -93,7 +93,10 @@ export default function isKeysIncludes<K extends PropertyKey, V>(
         methodLevel = 0;
     }
 
-    const k = new Set(keys(object, methodLevel));
+    const k = new Set<PropertyKey>(keys(object, methodLevel));
 
-    return [key].flat()[useAny ? 'some' : 'every']((v: any) => k.has(v));
+    return [key].flat()[useAny ? 'some' : 'every']((v: any) =>
+        // 数字类型的属性名实际上是字符串
+        k.has(isNumber(v) ? `${v}` : v)
+    );
 }
-- 
2.43.0


From cd09189d2ab7e7c254d2551c3927bfcb7e67ef2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:10 +0000
Subject: [PATCH 019/118] fix: stringify with a list of keys keeps array
 elements, numeric keys and the order asked for

---
 packages/object/src/stringify.ts | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/packages/object/src/stringify.ts b/packages/object/src/stringify.ts
index 42300f1..22fc5b0 100644
--- a/packages/object/src/stringify.ts
+++ b/packages/object/src/stringify.ts
@@ -126,14 +126,10 @@ export default function stringify(
             return replacer(k, safeStringifyReplacer(v, compare, cycles));
         };
     } else if (isArray(replacer)) {
-        const memo = new Set(replacer);
-        handler = (k: string, v: any) => {
-            // 第一次时，`key` 为空
-            if (!k) {
-                return v;
-            }
-
-            if (memo.has(k)) {
+        const memo = new Set(replacer.map(String));
+        handler = function (this: any, k: string, v: any) {
+            // 第一次时，`key` 为空，数组中的元素始终会被保留
+            if (!k || isArray(this) || memo.has(k)) {
                 return safeStringifyReplacer(v, compare, cycles);
             }
         };
-- 
2.43.0


From dfc40d248a727f5cc72e26e3ba96ef3f30e4f20d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:37 +0000
Subject: [PATCH 020/118] fix: encode characters outside the basic plane and
 lone surrogates in bytesArray

---
 packages/string/src/bytes/bytesArray.ts | 37 +++++++++++--------------
 1 file changed, 16 insertions(+), 21 deletions(-)

diff --git a/packages/string/src/bytes/bytesArray.ts b/packages/string/src/bytes/bytesArray.ts
index f19545a..0d0778e 100644
--- a/packages/string/src/bytes/bytesArray.ts
+++ b/packages/string/src/bytes/bytesArray.ts
@@ -17,30 +17,25 @@ import codePointAt from '../character/codePointAt';
 export default function bytesArray(value: string): number[] {
     const buffers = [];
 
-    for (let point = 0, next = 0, i = 0, len = value.length; i < len; i++) {
+    for (let point = 0, i = 0, len = value.length; i < len; i++) {
         point = codePointAt(value, i)!;
 
-        if (point >= 0xd800 && point <= 0xdbff) {
-            next = codePointAt(value, i)!;
-
-            if (next >= 0xdc00 && next <= 0xdfff) {
-                point = (point - 0xd800) * 0x400 + next - 0xdc00 + 0x10000;
-                i++;
-
-                if (point > 0xffff) {
-                    buffers.push(
-                        (0x1e << 3) | (point >>> 18),
-                        (0x2 << 6) | ((point >>> 12) & 0x3f),
-                        (0x2 << 6) | ((point >>> 6) & 0x3f),
-                        (0x2 << 6) | (point & 0x3f)
-                    );
+        if (point > 0xffff) {
+            // 由两个代理项组成的字符
+            i++;
+            buffers.push(
+                (0x1e << 3) | (point >>> 18),
+                (0x2 << 6) | ((point >>> 12) & 0x3f),
+                (0x2 << 6) | ((point >>> 6) & 0x3f),
+                (0x2 << 6) | (point & 0x3f)
+            );
+            continue;
+        }
 
-                    continue;
-                }
-            } else {
-                buffers.push(0xef, 0xbf, 0xbd);
-                continue;
-            }
+        if (point >= 0xd800 && point <= 0xdfff) {
+            // 不成对的代理项
+            buffers.push(0xef, 0xbf, 0xbd);
+            continue;
         }
 
         if (point <= 0x007f) {
-- 
2.43.0


From 883616d0f6eb21bb218984bd23bbd449b2732632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:37 +0000
Subject: [PATCH 021/118] fix: no empty first item in splitByBytes when the
 first character exceeds the mark

---
 packages/string/src/bytes/splitByBytes.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/string/src/bytes/splitByBytes.ts b/packages/string/src/bytes/splitByBytes.ts
index f90c3fc..45724bf 100644
--- a/packages/string/src/bytes/splitByBytes.ts
+++ b/packages/string/src/bytes/splitByBytes.ts
@@ -55,7 +55,7 @@ export default function splitByBytes(value: string, highWaterMark = 4096) {
             });
         }
 
-        if (tmp + byte > highWaterMark) {
+        if (tmp > 0 && tmp + byte > highWaterMark) {
             idx++;
             push(char);
             tmp = byte;
-- 
2.43.0


From eda0cb8eec1b3c000d16be4be820619250a8f6cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:37 +0000
Subject: [PATCH 022/118] fix: the entities nbsp, ensp, emsp and thinsp stood
 for an ordinary space

---
 packages/string/src/character/constants/htmlEntities.ts | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/packages/string/src/character/constants/htmlEntities.ts b/packages/string/src/character/constants/htmlEntities.ts
index f70d688..58956fe 100644
--- a/packages/string/src/character/constants/htmlEntities.ts
+++ b/packages/string/src/character/constants/htmlEntities.ts
@@ -5,7 +5,7 @@ export default [
     { "value": "'", "name": "apos", "point": "39", "description": "撇号" },
     { "value": "<", "name": "lt", "point": "60", "description": "小于号" },
     { "value": ">", "name": "gt", "point": "62", "description": "大于号" },
-    { "value": " ", "name": "nbsp", "point": "160", "description": "不换行空格" },
+    { "value": "\u00a0", "name": "nbsp", "point": "160", "description": "不换行空格" },
     { "value": "¡", "name": "iexcl", "point": "161", "description": "倒置叹号" },
     { "value": "¢", "name": "cent", "point": "162", "description": "分 (货币符号))" },
     { "value": "£", "name": "pound", "point": "163", "description": "镑 (货币符号)" },
@@ -161,9 +161,9 @@ export default [
     { "value": "ϑ", "name": "thetasym", "point": "977", "description": "希腊字母ϑ，手写体" },
     { "value": "ϒ", "name": "upsih", "point": "978", "description": "希腊字母ϒ，笔画卷曲的字形" },
     { "value": "ϖ", "name": "piv", "point": "982", "description": "希腊字母ϖ，古老的字形" },
-    { "value": " ", "name": "ensp", "point": "8194", "description": "字母n宽度的空间" },
-    { "value": " ", "name": "emsp", "point": "8195", "description": "字母m宽度的空间" },
-    { "value": " ", "name": "thinsp", "point": "8201", "description": "细空间" },
+    { "value": "\u2002", "name": "ensp", "point": "8194", "description": "字母n宽度的空间" },
+    { "value": "\u2003", "name": "emsp", "point": "8195", "description": "字母m宽度的空间" },
+    { "value": "\u2009", "name": "thinsp", "point": "8201", "description": "细空间" },
     { "value": "‌", "name": "zwnj", "point": "8204", "description": "零宽不连字" },
     { "value": "‍", "name": "zwj", "point": "8205", "description": "零宽连字" },
     { "value": "‎", "name": "lrm", "point": "8206", "description": "左到右标志" },
-- 
2.43.0


From 8719f454f8a72a2a197a6d38e23bd0670bc32474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:37 +0000
Subject: [PATCH 023/118] fix: decodeEntity decoded its own result a second
 time

---
 packages/string/src/character/htmlEntities.ts | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/packages/string/src/character/htmlEntities.ts b/packages/string/src/character/htmlEntities.ts
index d7a2d60..a8acd73 100644
--- a/packages/string/src/character/htmlEntities.ts
+++ b/packages/string/src/character/htmlEntities.ts
@@ -26,6 +26,9 @@ const nR = new RegExp(`&(${htmlEntities.map(h => h.name).join('|')});`, 'g');
 /** 验证实体编号的正则表达式 */
 const pR = new RegExp(`&#(${htmlEntities.map(h => h.point).join('|')});`, 'g');
 
+/** 验证实体名称或实体编号的正则表达式 */
+const npR = new RegExp(`${nR.source}|${pR.source}`, 'g');
+
 /** 验证实体字符的正则表达式 */
 const vR = new RegExp(`(${htmlEntities.map(h => h.value).join('|')})`, 'g');
 
@@ -56,7 +59,10 @@ export function decodeEntityByPoint(str: string): string {
  * @returns 返回解码的字符串
  */
 export function decodeEntity(value: string): string {
-    return decodeEntityByName(decodeEntityByPoint(value));
+    // 只扫描一次，解码出来的内容不会再次被解码
+    return value.replace(npR, (_, name, point) =>
+        name ? nameValueMap[name] : pointValueMap[point]
+    );
 }
 
 /**
-- 
2.43.0


From 850673ed4952d8e09a3742a6830b362ccdf63ba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:37 +0000
Subject: [PATCH 024/118] fix: toRegExpSource wrote a hyphen so that the u flag
 refused it

---
 packages/string/src/regexp/toRegExpSource.ts | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/packages/string/src/regexp/toRegExpSource.ts b/packages/string/src/regexp/toRegExpSource.ts
index f74f909..8c6c85b 100644
--- a/packages/string/src/regexp/toRegExpSource.ts
+++ b/packages/string/src/regexp/toRegExpSource.ts
@@ -11,5 +11,10 @@
  * ```
  */
 export default function toRegExpSource(str: string): string {
-    return str.replace(/(?=[[\](){}^$.?*+|\\/-])/g, '\\');
+    return (
+        str
+            .replace(/(?=[[\](){}^$.?*+|\\/])/g, '\\')
+            // `\-` 在 `u` 模式下是无效的转义
+            .replace(/-/g, '\\x2d')
+    );
 }
-- 
2.43.0


From 150444320fb5e4167fc1c66ff02e9f8a88a0ca55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:37 +0000
Subject: [PATCH 025/118] fix: extra characters to trim were read as regular
 expression syntax

---
 packages/string/src/trim/trimRegSource.ts | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/packages/string/src/trim/trimRegSource.ts b/packages/string/src/trim/trimRegSource.ts
index 2e7672e..ea8c6cc 100644
--- a/packages/string/src/trim/trimRegSource.ts
+++ b/packages/string/src/trim/trimRegSource.ts
@@ -5,6 +5,8 @@ import {
     likeSpaceRegSource,
     zeroWidthRegSource
 } from '../character/characters';
+import chars from '../chars/chars';
+import toRegExpSource from '../regexp/toRegExpSource';
 
 import type { TrimOptions } from './types';
 
@@ -37,7 +39,10 @@ export const trimRegSource = (
         { is: () => isTrue(control), ret: () => controlRegSource },
         {
             is: () => isStringFilled(extras) || isStringArray(extras),
-            ret: () => `[${[extras].flat().join('')}]`
+            ret: () =>
+                `(?:${chars([extras].flat().join(''))
+                    .map(toRegExpSource)
+                    .join('|')})`
         }
     ];
 
-- 
2.43.0


From bb2d150bda71c0aa20f9175c44019a4b6e8a9da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:37 +0000
Subject: [PATCH 026/118] fix: behindOf searched before the position when
 ignoring case

---
 packages/string/src/find/behindOf.ts | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/packages/string/src/find/behindOf.ts b/packages/string/src/find/behindOf.ts
index 9712747..57793c5 100644
--- a/packages/string/src/find/behindOf.ts
+++ b/packages/string/src/find/behindOf.ts
@@ -41,8 +41,7 @@ export default function behindOf(
     let fn = (str: string, chunk: string) => str.includes(chunk, pos);
 
     if (isFalse(caseSensitivity)) {
-        const l = str.length;
-        str = str.slice(0, isUint(pos) && pos < l ? pos : l);
+        str = str.slice(isUint(pos) ? pos : 0);
         fn = (str: string, chunk: string) => toRegExp(chunk, 'i').test(str);
     }
 
-- 
2.43.0


From 67277a6da71357a02d87389dc476618f14d9d043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:08 +0000
Subject: [PATCH 027/118] fix: subSpaces failed for patterns with named groups

---
 packages/string/src/spaces/subSpaces.ts | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/packages/string/src/spaces/subSpaces.ts b/packages/string/src/spaces/subSpaces.ts
index 23e3bf3..91dc0b6 100644
--- a/packages/string/src/spaces/subSpaces.ts
+++ b/packages/string/src/spaces/subSpaces.ts
@@ -1,5 +1,5 @@
 import { source } from '@curong/regexp';
-import { isFunction } from '@curong/types';
+import { isFunction, isString } from '@curong/types';
 
 /** 验证所有标点符号和一个空格 */
 const punctuationReg = new RegExp(`${source.punctuation}| `);
@@ -58,8 +58,11 @@ export default function subSpaces(
 
     return value.replace(regexp, (...matches) => {
         const substring = matches[0];
-        const value = matches[matches.length - 1];
-        const index = matches[matches.length - 2];
+        // 存在命名捕获组时，最后一个参数是命名捕获组
+        const last =
+            matches.length - (isString(matches[matches.length - 1]) ? 1 : 2);
+        const value = matches[last];
+        const index = matches[last - 1];
         const leftChar = value[index - 1];
         const rightChar = value[index + substring.length];
 
-- 
2.43.0


From 0449821064b0cc04ebfc5502c2bd9b7bca32d810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:29 +0000
Subject: [PATCH 028/118] fix: bindInside ended at the first closing bracket of
 nested ones

---
 packages/string/src/inside/bindInside.ts  | 5 +++--
 packages/string/src/inside/bindOutside.ts | 3 ++-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/packages/string/src/inside/bindInside.ts b/packages/string/src/inside/bindInside.ts
index 31e95da..4b13f96 100644
--- a/packages/string/src/inside/bindInside.ts
+++ b/packages/string/src/inside/bindInside.ts
@@ -86,7 +86,8 @@ export default function bindInside(
                 continue;
             }
 
-            value[i + 1] === token && i++;
+            // 被转义的开始和结束标记
+            [token, headToken].includes(value[i + 1]) && i++;
             continue;
         }
 
@@ -103,7 +104,7 @@ export default function bindInside(
         }
 
         // 如果括号或引号已经解析完成
-        if (isToken && --j <= 0) {
+        if (isToken && j-- <= 0) {
             // 如果紧挨着的仍然是括号或引号
             if ((token = marks[value[i + 1] as DefaultMarksType])) {
                 headToken = value[i + 1];
diff --git a/packages/string/src/inside/bindOutside.ts b/packages/string/src/inside/bindOutside.ts
index 76d5d59..c0718a9 100644
--- a/packages/string/src/inside/bindOutside.ts
+++ b/packages/string/src/inside/bindOutside.ts
@@ -131,7 +131,8 @@ export default function bindOutside(
                 continue;
             }
 
-            value[i + 1] === token && i++;
+            // 被转义的开始和结束标记
+            [token, headToken].includes(value[i + 1]) && i++;
             continue;
         }
 
-- 
2.43.0


From ec5c57719956424250a6f3574d1d0bc8a455371a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:29 +0000
Subject: [PATCH 029/118] fix: quotes right behind a bracket or quote were read
 as closed at once

---
 packages/string/src/inside/bindInside.ts  | 4 +++-
 packages/string/src/inside/bindOutside.ts | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/packages/string/src/inside/bindInside.ts b/packages/string/src/inside/bindInside.ts
index 4b13f96..bbed50f 100644
--- a/packages/string/src/inside/bindInside.ts
+++ b/packages/string/src/inside/bindInside.ts
@@ -107,7 +107,9 @@ export default function bindInside(
         if (isToken && j-- <= 0) {
             // 如果紧挨着的仍然是括号或引号
             if ((token = marks[value[i + 1] as DefaultMarksType])) {
-                headToken = value[i + 1];
+                // 跳过开始位置的括号或引号
+                headToken = value[++i];
+                j = 0;
                 continue;
             }
 
diff --git a/packages/string/src/inside/bindOutside.ts b/packages/string/src/inside/bindOutside.ts
index c0718a9..1684aed 100644
--- a/packages/string/src/inside/bindOutside.ts
+++ b/packages/string/src/inside/bindOutside.ts
@@ -152,7 +152,9 @@ export default function bindOutside(
         if (isToken && j-- <= 0) {
             // 如果紧挨着的仍然是括号或引号
             if ((token = marks[value[i + 1] as DefaultMarksType])) {
-                headToken = value[i + 1];
+                // 跳过开始位置的括号或引号
+                headToken = value[++i];
+                j = 0;
                 continue;
             }
 
-- 
2.43.0


From c0f9ec481fd125b1d80cd5e16810f03fac7098fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:22 +0000
Subject: [PATCH 030/118] fix: custom marks with the same start and end never
 closed in bindInside and bindOutside

---
 packages/string/src/inside/bindInside.ts  | 2 +-
 packages/string/src/inside/bindOutside.ts | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/string/src/inside/bindInside.ts b/packages/string/src/inside/bindInside.ts
index bbed50f..88dba9f 100644
--- a/packages/string/src/inside/bindInside.ts
+++ b/packages/string/src/inside/bindInside.ts
@@ -98,7 +98,7 @@ export default function bindInside(
         }
 
         // 如果是嵌套的括号
-        if (!/['"`]/.test(char) && char === headToken) {
+        if (!isToken && char === headToken) {
             j++;
             continue;
         }
diff --git a/packages/string/src/inside/bindOutside.ts b/packages/string/src/inside/bindOutside.ts
index 1684aed..f896821 100644
--- a/packages/string/src/inside/bindOutside.ts
+++ b/packages/string/src/inside/bindOutside.ts
@@ -143,7 +143,7 @@ export default function bindOutside(
         }
 
         // 如果是嵌套的括号
-        if (!/['"`]/.test(char) && char === headToken) {
+        if (!isToken && char === headToken) {
             j++;
             continue;
         }
-- 
2.43.0


From 5b158fa4da76d3fba3ea207e041a90a34434c44a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:33 +0000
Subject: [PATCH 031/118] fix: words with two letters behind an apostrophe were
 read as quotes

---
 packages/string/src/inside/bindInside.ts  | 2 +-
 packages/string/src/inside/bindOutside.ts | 2 +-
 packages/string/src/quote/quoteClosed.ts  | 2 +-
 packages/string/src/quote/quotePair.ts    | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/packages/string/src/inside/bindInside.ts b/packages/string/src/inside/bindInside.ts
index 88dba9f..a6011de 100644
--- a/packages/string/src/inside/bindInside.ts
+++ b/packages/string/src/inside/bindInside.ts
@@ -92,7 +92,7 @@ export default function bindInside(
         }
 
         // 如果为单引号，就判断是不是用来包裹内容的引号
-        if (char === "'" && value.slice(i - 1, i + 3).match(wordReg)) {
+        if (char === "'" && value.slice(i - 1, i + 4).match(wordReg)) {
             i++;
             continue;
         }
diff --git a/packages/string/src/inside/bindOutside.ts b/packages/string/src/inside/bindOutside.ts
index f896821..ebe8c83 100644
--- a/packages/string/src/inside/bindOutside.ts
+++ b/packages/string/src/inside/bindOutside.ts
@@ -137,7 +137,7 @@ export default function bindOutside(
         }
 
         // 如果为单引号，就判断是不是用来包裹内容的引号
-        if (char === "'" && value.slice(i - 1, i + 3).match(wordReg)) {
+        if (char === "'" && value.slice(i - 1, i + 4).match(wordReg)) {
             i++;
             continue;
         }
diff --git a/packages/string/src/quote/quoteClosed.ts b/packages/string/src/quote/quoteClosed.ts
index 7854659..b2eb992 100644
--- a/packages/string/src/quote/quoteClosed.ts
+++ b/packages/string/src/quote/quoteClosed.ts
@@ -52,7 +52,7 @@ export default function quoteClosed(str: string) {
                 break;
 
             case "'":
-                equal && str.slice(i - 1, i + 3).match(word) ? i-- : setToken();
+                equal && str.slice(i - 1, i + 4).match(word) ? i-- : setToken();
                 break;
 
             case '"':
diff --git a/packages/string/src/quote/quotePair.ts b/packages/string/src/quote/quotePair.ts
index cafdb76..0a2a979 100644
--- a/packages/string/src/quote/quotePair.ts
+++ b/packages/string/src/quote/quotePair.ts
@@ -38,7 +38,7 @@ export default function quotePair(str: string): string {
                 break;
 
             case "'":
-                if (equal && str.slice(i - 1, i + 3).match(word)) {
+                if (equal && str.slice(i - 1, i + 4).match(word)) {
                     i++;
                     break;
                 }
-- 
2.43.0


From a496902131231814f59513ad111e5e165860dd05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:21 +0000
Subject: [PATCH 032/118] fix: toSentences inserted blanks before the last
 character of Chinese sentences

---
 packages/string/src/sentences/toSentences.ts | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/packages/string/src/sentences/toSentences.ts b/packages/string/src/sentences/toSentences.ts
index 7084339..c1c8f5e 100644
--- a/packages/string/src/sentences/toSentences.ts
+++ b/packages/string/src/sentences/toSentences.ts
@@ -54,9 +54,6 @@ const periodReg = /(?:(?:^| \S+|[\u4e00-\u9fff])[.!?;]+ |[。！？；]+) */gi;
 /** 验证末尾省略号的正则表达式 */
 const ellipsisReg = /[.。]{2,}$/;
 
-/** 验证中文的正则表达式 */
-const zhReg = /[\u4e00-\u9fff]/;
-
 /**
  * 将一个字符串拆分为句子数组
  *
@@ -84,7 +81,7 @@ export default function toSentences(
         value,
         options,
         (value: string, index: number, origin: string) =>
-            value.replace(periodReg, (v, $1) => {
+            value.replace(periodReg, v => {
                 const w = v.trim();
 
                 if (
@@ -95,7 +92,8 @@ export default function toSentences(
                     return v;
                 }
 
-                if (w.length > 1 && !zhReg.test($1)) {
+                // 保留单词前面的空格
+                if (v.startsWith(' ')) {
                     return ` ${w}\n`;
                 }
 
-- 
2.43.0


From 9395ce4bd7e7d05e76f4a84ffa0dc8a560e7b662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:18 +0000
Subject: [PATCH 033/118] fix: toSentences kept all sentences together that end
 like the text

---
 packages/string/src/sentences/toSentences.ts | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/packages/string/src/sentences/toSentences.ts b/packages/string/src/sentences/toSentences.ts
index c1c8f5e..5465f01 100644
--- a/packages/string/src/sentences/toSentences.ts
+++ b/packages/string/src/sentences/toSentences.ts
@@ -81,13 +81,14 @@ export default function toSentences(
         value,
         options,
         (value: string, index: number, origin: string) =>
-            value.replace(periodReg, v => {
+            value.replace(periodReg, (v, offset) => {
                 const w = v.trim();
 
                 if (
                     abbreviationReg.test(w) ||
                     (!ellipsis && ellipsisReg.test(w)) ||
-                    (index === origin.length && origin.endsWith(v))
+                    (index === origin.length &&
+                        offset + v.length === value.length)
                 ) {
                     return v;
                 }
-- 
2.43.0


From 24c46d0f7bfb495deffaf9e11e36411c1d85c624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:17 +0000
Subject: [PATCH 034/118] fix: spawn left brackets and braces unquoted for the
 shell

---
 packages/process/src/spawn.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/process/src/spawn.ts b/packages/process/src/spawn.ts
index cd9b070..b7bd66d 100644
--- a/packages/process/src/spawn.ts
+++ b/packages/process/src/spawn.ts
@@ -58,7 +58,7 @@ const escapeSh = (input: string): string => {
         return `''`;
     }
 
-    if (!/[\r\n\t '"`#$&~*;?|()<>\\]/.test(input)) {
+    if (!/[\r\n\t '"`#$&~*;?|()<>\\[\]{}]/.test(input)) {
         return input;
     }
 
-- 
2.43.0


From 04dbd0f32c2ac3188c0c570885c0800af8d34b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:29 +0000
Subject: [PATCH 035/118] fix: spawn raised an uncaught error when the process
 could not be started

---
 packages/process/src/spawn.ts | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/packages/process/src/spawn.ts b/packages/process/src/spawn.ts
index b7bd66d..1c85391 100644
--- a/packages/process/src/spawn.ts
+++ b/packages/process/src/spawn.ts
@@ -210,7 +210,7 @@ export default function spawn(
         args = shellArgs;
     }
 
-    let handler: ChildProcess;
+    let handler: ChildProcess | undefined;
 
     const child = new Promise((res, rej) => {
         handler = _spawn(cmd, args, opts);
@@ -256,8 +256,9 @@ export default function spawn(
     }) as SpawnResult;
 
     setTimeout(() => {
-        child.stdin = handler!.stdin;
-        child.process = handler!;
+        // 如果无法启动进程，则 `handler` 不存在
+        child.stdin = handler?.stdin ?? null;
+        child.process = handler ?? null;
     });
 
     return child;
-- 
2.43.0


From 76de71490eef78087260caab7c12c9a0219bb105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:27 +0000
Subject: [PATCH 036/118] fix: request rejected with a promise when reading the
 response failed

---
 packages/request/src/request/request.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/request/src/request/request.ts b/packages/request/src/request/request.ts
index 8a7c0ab..bc4663a 100644
--- a/packages/request/src/request/request.ts
+++ b/packages/request/src/request/request.ts
@@ -297,7 +297,7 @@ export default async function request(
             });
 
             serialStream.on('end', () => resolve(returns()));
-            serialStream.on('error', e => reject(returns(e)));
+            serialStream.on('error', async e => reject(await returns(e)));
         });
 
         req.on('timeout', () => {
-- 
2.43.0


From 3a5b0b8edbf10e0278567305996b7b4ed4c42523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:27 +0000
Subject: [PATCH 037/118] fix: redirects changed the given options, lost
 handlers, kept body and host, and failed for relative addresses

---
 packages/request/src/request/request.ts | 56 ++++++++++++++++++-------
 1 file changed, 41 insertions(+), 15 deletions(-)

diff --git a/packages/request/src/request/request.ts b/packages/request/src/request/request.ts
index bc4663a..2b54246 100644
--- a/packages/request/src/request/request.ts
+++ b/packages/request/src/request/request.ts
@@ -1,9 +1,9 @@
 import { IncomingMessage, type ClientRequest } from 'http';
+import { request as httpsRequest } from 'https';
 
 import { delayRun } from '@curong/function';
 import { toLowerCaseKey } from '@curong/object';
 import {
-    isNull,
     isNullOrUndefined,
     isObjectFilled,
     isStringFilled
@@ -211,14 +211,36 @@ export default async function request(
                 // 销毁当前请求
                 req.destroy();
 
-                // 消耗一次重定向请求
-                options.maxRedirects = maxRedirects - 1;
+                const { hostname, port, path } = config;
+                const protocol = requestFn === httpsRequest ? 'https' : 'http';
+                let currentUrl: URL;
+                let redirectUrl: URL;
+
+                try {
+                    currentUrl = new URL(`${protocol}://${hostname}`);
+                    currentUrl.port = port ?? '';
+
+                    // 重定向的地址可能是相对于当前请求的地址
+                    redirectUrl = new URL(
+                        locationUrl,
+                        currentUrl.origin + (path.startsWith('/') ? path : '')
+                    );
+                } catch (error) {
+                    return reject(
+                        new Error('[request] 重定向的地址不合法', {
+                            cause: { request: req, config, error }
+                        })
+                    );
+                }
 
-                // 对请求头的处理
-                const redirectHost = new URL(locationUrl).hostname;
+                // 不要修改用户传递的配置，并消耗一次重定向请求
+                const redirectOptions = {
+                    ...options,
+                    maxRedirects: maxRedirects - 1
+                };
 
                 // 当进行重定向时，删除 URL 中已包含的重复部分
-                deleteOptionsAttr(options, [
+                deleteOptionsAttr(redirectOptions, [
                     'protocol',
                     'username',
                     'password',
@@ -230,32 +252,36 @@ export default async function request(
                 ]);
 
                 if (!isNullOrUndefined(options.headers)) {
-                    options.headers = toLowerCaseKey(options.headers);
+                    redirectOptions.headers = toLowerCaseKey(options.headers);
                 }
 
                 // 如果当前请求的主机名与要重定向的主机名不同，则删除隐私数据
-                if (!isNull(redirectHost) && redirectHost !== config.hostname) {
-                    deleteOptionsAttr(options, ['auth']);
-                    deleteOptionsAttr(options.headers, [
+                if (redirectUrl.hostname !== currentUrl.hostname) {
+                    deleteOptionsAttr(redirectOptions, ['auth']);
+                    deleteOptionsAttr(redirectOptions.headers, [
                         'cookie',
-                        'authorization'
+                        'authorization',
+                        'host'
                     ]);
                 }
 
-                // 浏览器会将 POST 请求的 301 和 301 重定向重写为 GET
+                // 浏览器会将 POST 请求的 301 和 302 重定向重写为 GET
                 // https://tools.ietf.org/html/rfc7231%5C#section-6.4.2
                 if (
                     config.method === 'POST' &&
                     /^30[12]$/.test(`${res.statusCode}`)
                 ) {
-                    options.method = 'GET';
-                    deleteOptionsAttr(options.headers, [
+                    redirectOptions.method = 'GET';
+                    deleteOptionsAttr(redirectOptions, ['body']);
+                    deleteOptionsAttr(redirectOptions.headers, [
                         'content-length',
                         'content-type'
                     ]);
                 }
 
-                return resolve(request(locationUrl, options));
+                return resolve(
+                    request(redirectUrl.href, redirectOptions, handlers)
+                );
             }
 
             const buffers: Buffer[] = [];
-- 
2.43.0


From 2e873cb82907018bf9fd011d4f7cac37912d8e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:27 +0000
Subject: [PATCH 038/118] fix: request dropped the query of the URL when more
 query parameters were given

---
 packages/request/src/request/options.ts | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/packages/request/src/request/options.ts b/packages/request/src/request/options.ts
index 94bdcd0..32d30c1 100644
--- a/packages/request/src/request/options.ts
+++ b/packages/request/src/request/options.ts
@@ -167,9 +167,8 @@ const urlToParams = (baseUrl: string, options: RequestOptions) => {
 
     options.https ??= protocol === 'https:';
     options.hostname ??= hostname;
-    options.path = options.query // 如果传递空对象也是 `true`
-        ? getPath(options.path ?? path, options.query)
-        : getPath((options.path ?? path) + search);
+    // `query` 会被追加到 URL 的查询字符串的末尾
+    options.path = getPath((options.path ?? path) + search, options.query);
     Reflect.deleteProperty(options, 'query'); // 删除它，防止后续重复操作
     options.port ??= port ? +port : undefined;
     options.auth ??=
-- 
2.43.0


From 227d777555492751b8c381c4185dde3c66130f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:27 +0000
Subject: [PATCH 039/118] fix: request ignored an address given as a URL object

---
 packages/request/src/request/options.ts | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/packages/request/src/request/options.ts b/packages/request/src/request/options.ts
index 32d30c1..8b58f66 100644
--- a/packages/request/src/request/options.ts
+++ b/packages/request/src/request/options.ts
@@ -13,7 +13,8 @@ import {
     isObjectFilled,
     isStringFilled,
     isTrue,
-    isTypeofObject
+    isTypeofObject,
+    isURL
 } from '@curong/types';
 
 import type { Methods, RequestOptions } from '../types';
@@ -192,7 +193,9 @@ export const optionsHandler = (
     // 添加通用请求头
     options.headers = toLowerCaseKey({ ...commonHeaders, ...options.headers });
 
-    if (isStringFilled(baseUrl)) {
+    if (isURL(baseUrl)) {
+        urlToParams(baseUrl.href, options);
+    } else if (isStringFilled(baseUrl)) {
         urlToParams(baseUrl, options);
     }
 
-- 
2.43.0


From c3f1ecbf517dcf5632549735dfa8503cb852d75f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:27 +0000
Subject: [PATCH 040/118] fix: request sent the credentials of the URL
 percent-encoded, and none without a password

---
 packages/request/src/request/options.ts | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/packages/request/src/request/options.ts b/packages/request/src/request/options.ts
index 8b58f66..e543d61 100644
--- a/packages/request/src/request/options.ts
+++ b/packages/request/src/request/options.ts
@@ -173,7 +173,9 @@ const urlToParams = (baseUrl: string, options: RequestOptions) => {
     Reflect.deleteProperty(options, 'query'); // 删除它，防止后续重复操作
     options.port ??= port ? +port : undefined;
     options.auth ??=
-        username && password ? `${username}:${password}` : undefined;
+        username || password
+            ? `${decodeURIComponent(username)}:${decodeURIComponent(password)}`
+            : undefined;
 };
 
 export const optionsHandler = (
-- 
2.43.0


From 7aae0dea0e180cee13934451770b3ec3db2a1ff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:42 +0000
Subject: [PATCH 041/118] fix: request left the port out of the host header

---
 packages/request/src/request/options.ts | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/packages/request/src/request/options.ts b/packages/request/src/request/options.ts
index e543d61..32a4dbd 100644
--- a/packages/request/src/request/options.ts
+++ b/packages/request/src/request/options.ts
@@ -201,15 +201,18 @@ export const optionsHandler = (
         urlToParams(baseUrl, options);
     }
 
-    const { hostname, path = '/', https = true, query } = options;
+    const { hostname, path = '/', port, https = true, query } = options;
+    // 非默认的端口号是主机的一部分
+    const host =
+        port && +port !== (https ? 443 : 80) ? `${hostname}:${port}` : hostname;
     // `hostname` 有可能是 IP 地址，这时候就要看看 `options.headers.host` 有没有值了
-    const origin = `${https ? 'https' : 'http'}://${options.headers.host ?? hostname}`;
+    const origin = `${https ? 'https' : 'http'}://${options.headers.host ?? host}`;
 
     deleteOptionsAttr(options, ['https', 'query']);
     validationParameters({ hostname, path });
 
     options.path = getPath(path, query);
-    options.headers.host ??= hostname;
+    options.headers.host ??= host;
     options.headers.origin ??= origin;
     // 可包含完整的 URL 路径（包括协议、主机名、端口、路径等），后面不要加 `/` 了
     options.headers.referer ??= origin;
-- 
2.43.0


From 800c514b8cbac325494f6410708ff1b5a6367a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:27 +0000
Subject: [PATCH 042/118] fix: copy of typed arrays lost the values

---
 packages/util/src/copy.ts | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/packages/util/src/copy.ts b/packages/util/src/copy.ts
index 297b447..809e784 100644
--- a/packages/util/src/copy.ts
+++ b/packages/util/src/copy.ts
@@ -107,6 +107,15 @@ const copyByTag = <T extends object>(value: any, weak: WeakMap<T, T>) => {
             return reg;
         }
 
+        case 'Int8Array':
+        case 'Uint8Array':
+        case 'Uint8ClampedArray':
+        case 'Int16Array':
+        case 'Uint16Array':
+        case 'Int32Array':
+        case 'Uint32Array':
+        case 'Float32Array':
+        case 'Float64Array':
         case 'BigInt64Array':
         case 'BigUint64Array':
             return new value.constructor(value);
@@ -147,15 +156,6 @@ const copyByTag = <T extends object>(value: any, weak: WeakMap<T, T>) => {
 
         case 'ArrayBuffer':
         case 'SharedArrayBuffer':
-        case 'Int8Array':
-        case 'Uint8Array':
-        case 'Uint8ClampedArray':
-        case 'Int16Array':
-        case 'Uint16Array':
-        case 'Int32Array':
-        case 'Uint32Array':
-        case 'Float32Array':
-        case 'Float64Array':
             return copyArrayBuffer(value);
 
         case 'Arguments':
-- 
2.43.0


From a2344f19e9382246fadaca6c234a73d75f5514c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:58 +0000
Subject: [PATCH 043/118] fix: arrays in multipart bodies were sent as text of
 the whole array

---
 packages/request/src/request/formData.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/request/src/request/formData.ts b/packages/request/src/request/formData.ts
index 3e3f252..6dbab9e 100644
--- a/packages/request/src/request/formData.ts
+++ b/packages/request/src/request/formData.ts
@@ -128,7 +128,7 @@ export function objectToFormData(
                 ? `${arrayKeyPrefix}[${index}]`
                 : `${parentKey}[${index}]`;
 
-            if (isPlainObject(value)) {
+            if (isPlainObject(value) || isArray(value)) {
                 objectToFormData(value, {
                     arrayKeyPrefix,
                     parentKey: key,
@@ -145,7 +145,7 @@ export function objectToFormData(
     for (const [key, value] of Object.entries(object)) {
         const nestedKey = parentKey ? `${parentKey}.${key}` : key;
 
-        if (isPlainObject(value)) {
+        if (isPlainObject(value) || isArray(value)) {
             objectToFormData(value as NestedObject, {
                 arrayKeyPrefix,
                 parentKey: nestedKey,
-- 
2.43.0


From 192e7322fb8e76eb02b77d226648d52f15f913f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:58 +0000
Subject: [PATCH 044/118] fix: a FormData body was sent empty unless the
 content type was given

---
 packages/request/src/request/content.ts | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/packages/request/src/request/content.ts b/packages/request/src/request/content.ts
index 23125f6..27b7423 100644
--- a/packages/request/src/request/content.ts
+++ b/packages/request/src/request/content.ts
@@ -121,15 +121,18 @@ export function contentTypeCallback(options: RequestOptions) {
             headers['Content-Type'] ??
             '') as string;
 
-        if (isFormUrlencodedType(contentType)) {
+        // 表单数据对象只能以 `multipart/form-data` 的形式发送
+        const isForm = isFormData(options.body);
+
+        if (isFormUrlencodedType(contentType) && !isForm) {
             return stringify;
         }
 
-        if (isJsonType(contentType)) {
+        if (isJsonType(contentType) && !isForm) {
             return JSON.stringify;
         }
 
-        if (isFormDataType(contentType)) {
+        if (isFormDataType(contentType) || isForm) {
             return async (body: Record<PropertyKey, any> | FormData) => {
                 if (!isFormData(body)) {
                     body = objectToFormData(body);
-- 
2.43.0


From b68ddc61eb66c8738ea39e3dec5649c4a660d267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:09 +0000
Subject: [PATCH 045/118] fix: request dropped the query when no path was given

---
 packages/request/src/request/options.ts | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/packages/request/src/request/options.ts b/packages/request/src/request/options.ts
index 32a4dbd..38d7bfa 100644
--- a/packages/request/src/request/options.ts
+++ b/packages/request/src/request/options.ts
@@ -117,11 +117,7 @@ const joinUrlQuery = (url: string, params: Record<string | number, any>) => {
 };
 
 const getPath = (path?: string, query?: ParsedUrlQueryInput) => {
-    if (!isStringFilled(path)) {
-        return '/';
-    }
-
-    path = path.trim();
+    path = isStringFilled(path) ? path.trim() : '/';
 
     if (isObjectFilled(query)) {
         path = joinUrlQuery(path, query);
-- 
2.43.0


From efb3a82871ba44dfe5330b7cb3b64321134f077f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:36 +0000
Subject: [PATCH 046/118] fix: isEvery passed the index to the conditions as
 second argument

---
 packages/types/src/cmp/isEvery.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/types/src/cmp/isEvery.ts b/packages/types/src/cmp/isEvery.ts
index 26c518f..779a5be 100644
--- a/packages/types/src/cmp/isEvery.ts
+++ b/packages/types/src/cmp/isEvery.ts
@@ -17,5 +17,5 @@ export default function isEvery<V, P extends (value: V) => boolean>(
     predicate: P | P[]
 ): value is V {
     const v = [value].flat() as V[];
-    return [predicate].flat().every(f => v.every(f));
+    return [predicate].flat().every(f => v.every(x => f(x)));
 }
-- 
2.43.0


From 25b133eb856d559bab0f7d6ea924e1019198935d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:36 +0000
Subject: [PATCH 047/118] fix: isClass missed anonymous classes without a blank
 before the body

---
 packages/types/src/function/isClass.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/types/src/function/isClass.ts b/packages/types/src/function/isClass.ts
index 46a0a81..d3a82c6 100644
--- a/packages/types/src/function/isClass.ts
+++ b/packages/types/src/function/isClass.ts
@@ -16,6 +16,6 @@ export default function isClass<R = unknown, A extends unknown[] = unknown[]>(
     value: unknown
 ): value is Class<R, A> {
     return (
-        isFunction(value) && functionToString.call(value).startsWith('class ')
+        isFunction(value) && /^class[\s{/]/.test(functionToString.call(value))
     );
 }
-- 
2.43.0


From 6306b5d60770e2deda519b9266cfd7ffc11660df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:36 +0000
Subject: [PATCH 048/118] fix: isFunctionBound failed for functions whose name
 is not a text

---
 packages/types/src/function/isFunctionBound.ts | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/packages/types/src/function/isFunctionBound.ts b/packages/types/src/function/isFunctionBound.ts
index 65c40b5..305aabc 100644
--- a/packages/types/src/function/isFunctionBound.ts
+++ b/packages/types/src/function/isFunctionBound.ts
@@ -1,4 +1,7 @@
 import hasOwnProperty from '../property/hasOwnProperty';
+import isStringPrimitive from '../string/isStringPrimitive';
+
+import { functionToString } from './constants';
 
 import isFunction from './isFunction';
 import type { Function } from './types';
@@ -19,8 +22,9 @@ export default function isFunctionBound<
 >(value: unknown): value is Function<R, A> {
     return (
         isFunction(value) &&
+        isStringPrimitive(value.name) &&
         value.name.startsWith('bound ') &&
         !hasOwnProperty(value, 'prototype') &&
-        value.toString() === 'function () { [native code] }'
+        functionToString.call(value) === 'function () { [native code] }'
     );
 }
-- 
2.43.0


From c1b3a52fa91dc844166d8b6efae60e231369e7b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:47 +0000
Subject: [PATCH 049/118] fix: isNativeFunction read the name of the function
 as regular expression

---
 packages/types/src/function/isNativeFunction.ts | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/packages/types/src/function/isNativeFunction.ts b/packages/types/src/function/isNativeFunction.ts
index cf50889..2701e90 100644
--- a/packages/types/src/function/isNativeFunction.ts
+++ b/packages/types/src/function/isNativeFunction.ts
@@ -1,3 +1,5 @@
+import isStringPrimitive from '../string/isStringPrimitive';
+
 import { functionToString, isNativeFunctionToString } from './constants';
 import isFunction from './isFunction';
 import type { Function } from './types';
@@ -19,8 +21,8 @@ export default function isNativeFunction<
         // 确保该函数没有被人为修改
         isNativeFunctionToString &&
         // 结果只能是特定的字符串
-        new RegExp(
-            `^function ${(value as any).name}\\(\\) \\{ \\[native code\\] \\}$`
-        ).test(functionToString.call(value))
+        isStringPrimitive(value.name) &&
+        functionToString.call(value) ===
+            `function ${value.name}() { [native code] }`
     );
 }
-- 
2.43.0


From c56ac388d01b92c25f511d0237047e5c5e8c65f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:47 +0000
Subject: [PATCH 050/118] fix: the error predicates failed for objects without
 prototype

---
 packages/types/src/error/isAggregateError.ts | 2 +-
 packages/types/src/error/isError.ts          | 2 +-
 packages/types/src/error/isEvalError.ts      | 2 +-
 packages/types/src/error/isRangeError.ts     | 2 +-
 packages/types/src/error/isReferenceError.ts | 2 +-
 packages/types/src/error/isSyntaxError.ts    | 2 +-
 packages/types/src/error/isTypeError.ts      | 2 +-
 packages/types/src/error/isURIError.ts       | 2 +-
 8 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/packages/types/src/error/isAggregateError.ts b/packages/types/src/error/isAggregateError.ts
index bd94887..e428c93 100644
--- a/packages/types/src/error/isAggregateError.ts
+++ b/packages/types/src/error/isAggregateError.ts
@@ -13,6 +13,6 @@ import isAnyError from './isAnyError';
 export default function isAggregateError(value: unknown): value is EvalError {
     return (
         isAnyError(value) &&
-        Object.getPrototypeOf(value).name === 'AggregateError'
+        Object.getPrototypeOf(value)?.name === 'AggregateError'
     );
 }
diff --git a/packages/types/src/error/isError.ts b/packages/types/src/error/isError.ts
index 28a13b4..4780c04 100644
--- a/packages/types/src/error/isError.ts
+++ b/packages/types/src/error/isError.ts
@@ -10,6 +10,6 @@ import getTagEqual from '../type/getTagEqual';
 export default function isError(value: unknown): value is Error {
     return (
         getTagEqual(value, 'Error') &&
-        Object.getPrototypeOf(value).name === 'Error'
+        Object.getPrototypeOf(value)?.name === 'Error'
     );
 }
diff --git a/packages/types/src/error/isEvalError.ts b/packages/types/src/error/isEvalError.ts
index cf74ba7..825caef 100644
--- a/packages/types/src/error/isEvalError.ts
+++ b/packages/types/src/error/isEvalError.ts
@@ -8,6 +8,6 @@ import isAnyError from './isAnyError';
  */
 export default function isEvalError(value: unknown): value is EvalError {
     return (
-        isAnyError(value) && Object.getPrototypeOf(value).name === 'EvalError'
+        isAnyError(value) && Object.getPrototypeOf(value)?.name === 'EvalError'
     );
 }
diff --git a/packages/types/src/error/isRangeError.ts b/packages/types/src/error/isRangeError.ts
index 529b21a..d1fe900 100644
--- a/packages/types/src/error/isRangeError.ts
+++ b/packages/types/src/error/isRangeError.ts
@@ -8,6 +8,6 @@ import isAnyError from './isAnyError';
  */
 export default function isRangeError(value: unknown): value is RangeError {
     return (
-        isAnyError(value) && Object.getPrototypeOf(value).name === 'RangeError'
+        isAnyError(value) && Object.getPrototypeOf(value)?.name === 'RangeError'
     );
 }
diff --git a/packages/types/src/error/isReferenceError.ts b/packages/types/src/error/isReferenceError.ts
index d5bcb01..7ace1ea 100644
--- a/packages/types/src/error/isReferenceError.ts
+++ b/packages/types/src/error/isReferenceError.ts
@@ -11,6 +11,6 @@ export default function isReferenceError(
 ): value is ReferenceError {
     return (
         isAnyError(value) &&
-        Object.getPrototypeOf(value).name === 'ReferenceError'
+        Object.getPrototypeOf(value)?.name === 'ReferenceError'
     );
 }
diff --git a/packages/types/src/error/isSyntaxError.ts b/packages/types/src/error/isSyntaxError.ts
index e8be054..4dc6892 100644
--- a/packages/types/src/error/isSyntaxError.ts
+++ b/packages/types/src/error/isSyntaxError.ts
@@ -8,6 +8,6 @@ import isAnyError from './isAnyError';
  */
 export default function isSyntaxError(value: unknown): value is SyntaxError {
     return (
-        isAnyError(value) && Object.getPrototypeOf(value).name === 'SyntaxError'
+        isAnyError(value) && Object.getPrototypeOf(value)?.name === 'SyntaxError'
     );
 }
diff --git a/packages/types/src/error/isTypeError.ts b/packages/types/src/error/isTypeError.ts
index f1e19be..8a02941 100644
--- a/packages/types/src/error/isTypeError.ts
+++ b/packages/types/src/error/isTypeError.ts
@@ -8,6 +8,6 @@ import isAnyError from './isAnyError';
  */
 export default function isTypeError(value: unknown): value is TypeError {
     return (
-        isAnyError(value) && Object.getPrototypeOf(value).name === 'TypeError'
+        isAnyError(value) && Object.getPrototypeOf(value)?.name === 'TypeError'
     );
 }
diff --git a/packages/types/src/error/isURIError.ts b/packages/types/src/error/isURIError.ts
index cbf9b00..3a9e893 100644
--- a/packages/types/src/error/isURIError.ts
+++ b/packages/types/src/error/isURIError.ts
@@ -12,6 +12,6 @@ import isAnyError from './isAnyError';
  */
 export default function isURIError(value: unknown): value is EvalError {
     return (
-        isAnyError(value) && Object.getPrototypeOf(value).name === 'URIError'
+        isAnyError(value) && Object.getPrototypeOf(value)?.name === 'URIError'
     );
 }
-- 
2.43.0


From a495feb49504c85fd1f60e7a91eae41895cf810e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:47 +0000
Subject: [PATCH 051/118] fix: isBuffer returned undefined for some values

---
 packages/types/src/buffer/isBuffer.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/types/src/buffer/isBuffer.ts b/packages/types/src/buffer/isBuffer.ts
index b8b38e7..b63f485 100644
--- a/packages/types/src/buffer/isBuffer.ts
+++ b/packages/types/src/buffer/isBuffer.ts
@@ -21,7 +21,7 @@ const r = (value: any) => value.constructor.isBuffer(value);
  */
 export default function isBuffer(value: unknown): value is Buffer {
     try {
-        return (
+        return !!(
             r(value) ||
             ((value as Buffer).readFloatLE &&
                 r((value as Buffer).subarray(0, 1)))
-- 
2.43.0


From 8a156fcc991eb208d896803a655d80e1e5aa9499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:47 +0000
Subject: [PATCH 052/118] fix: isDateValid failed for values that cannot be
 converted

---
 packages/types/src/date/isDateValid.ts | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/packages/types/src/date/isDateValid.ts b/packages/types/src/date/isDateValid.ts
index 6eef625..9da0161 100644
--- a/packages/types/src/date/isDateValid.ts
+++ b/packages/types/src/date/isDateValid.ts
@@ -17,5 +17,9 @@ import isUndefined from '../nullable/isUndefined';
 export default function isDateValid<T = number | string | unknown[] | Date>(
     value: unknown
 ): value is T {
-    return !isUndefined(value) && !isNaN(new Date(value as any).valueOf());
+    try {
+        return !isUndefined(value) && !isNaN(new Date(value as any).valueOf());
+    } catch {}
+
+    return false;
 }
-- 
2.43.0


From d71c6c02df3a44aa065e275c64fc8b7c5327282c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:47 +0000
Subject: [PATCH 053/118] fix: isArrayLike counted keys that are no indexes

---
 packages/types/src/array/isArrayLike.ts | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/packages/types/src/array/isArrayLike.ts b/packages/types/src/array/isArrayLike.ts
index 40889f9..77a0082 100644
--- a/packages/types/src/array/isArrayLike.ts
+++ b/packages/types/src/array/isArrayLike.ts
@@ -49,7 +49,10 @@ export default function isArrayLike<T = unknown>(
     }
 
     const keys = Object.keys(value);
-    const nkl = keys.map(Number).filter(isArrayIndex).length;
+    const nkl = keys.filter(key => {
+        const index = Number(key);
+        return isArrayIndex(index) && String(index) === key;
+    }).length;
 
     if (!isSparse) {
         for (let i = 0, len = nkl; i < len; i++) {
-- 
2.43.0


From baf416cd1acf36edd7d6247338f0d727b926a6bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:47 +0000
Subject: [PATCH 054/118] fix: isVarName accepted statements

---
 packages/types/src/variable/isVarName.ts | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/packages/types/src/variable/isVarName.ts b/packages/types/src/variable/isVarName.ts
index bd2b608..dc95bb3 100644
--- a/packages/types/src/variable/isVarName.ts
+++ b/packages/types/src/variable/isVarName.ts
@@ -1,5 +1,9 @@
 import isString from '../string/isString';
 
+// 标识符，也可以是 Unicode 转义的形式。它有可能是一个关键字
+const identifierPattern =
+    /^(?:[\p{ID_Start}$_]|\\u[\da-f]{4}|\\u\{[\da-f]+\})(?:[\p{ID_Continue}$\u200c\u200d]|\\u[\da-f]{4}|\\u\{[\da-f]+\})*$/iu;
+
 /**
  * 是不是可以把值当做 `JavaScript` 的变量名
  *
@@ -8,7 +12,7 @@ import isString from '../string/isString';
  * @returns 是则返回 `true`，否则为 `false`
  */
 export default function isVarName(value: unknown): value is string {
-    if (!isString(value) || value.trim() !== value) {
+    if (!isString(value) || !identifierPattern.test(value)) {
         return false;
     }
 
-- 
2.43.0


From 18c6cbca79cc1c35526c72b621a267c8c5c97d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:47 +0000
Subject: [PATCH 055/118] fix: isPropertyDescriptor accepted descriptors that
 no property can have

---
 .../types/src/property/isPropertyDescriptor.ts    | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/packages/types/src/property/isPropertyDescriptor.ts b/packages/types/src/property/isPropertyDescriptor.ts
index 96219d9..43392dc 100644
--- a/packages/types/src/property/isPropertyDescriptor.ts
+++ b/packages/types/src/property/isPropertyDescriptor.ts
@@ -1,5 +1,6 @@
 import isBoolean from '../boolean/isBoolean';
 import isFunction from '../function/isFunction';
+import isUndefined from '../nullable/isUndefined';
 import isObject from '../object/isObject';
 
 import hasOwnProperty from './hasOwnProperty';
@@ -20,12 +21,16 @@ export default function isPropertyDescriptor(
     }
 
     const isData = hasOwnProperty(value, 'value');
-    const IsAccessor =
-        (hasOwnProperty(value, 'get') && isFunction(value.get)) ||
-        (hasOwnProperty(value, 'set') && isFunction(value.set));
+    const accessors = ['get', 'set'].filter(k => hasOwnProperty(value, k));
+    const IsAccessor = accessors.some(k => isFunction(value[k]));
 
-    // `value` 和 `get/set` 不能同时存在
-    if (isData && IsAccessor) {
+    // `value` 和 `writable` 不能与 `get/set` 同时存在，`get/set` 只能是函数或 `undefined`
+    if (
+        accessors.length > 0 &&
+        (isData ||
+            hasOwnProperty(value, 'writable') ||
+            accessors.some(k => !isFunction(value[k]) && !isUndefined(value[k])))
+    ) {
         return false;
     }
 
-- 
2.43.0


From b07c27858b343d6d41bba6df62000f188d931c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:47 +0000
Subject: [PATCH 056/118] fix: isElement failed where there are no elements

---
 packages/types/src/element/isElement.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/types/src/element/isElement.ts b/packages/types/src/element/isElement.ts
index e55a7bd..8c7f529 100644
--- a/packages/types/src/element/isElement.ts
+++ b/packages/types/src/element/isElement.ts
@@ -10,5 +10,5 @@
  *
  */
 export default function isElement(value: unknown): value is Element {
-    return value instanceof Element;
+    return typeof Element !== 'undefined' && value instanceof Element;
 }
-- 
2.43.0


From 8e0e8fd27d4eac1178a67e8bee931aa83a48a1f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:47 +0000
Subject: [PATCH 057/118] fix: assertEqual always failed and assertNotEqual
 never did

---
 packages/asserts/src/cmp/assertEqual.ts    | 2 +-
 packages/asserts/src/cmp/assertNotEqual.ts | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/asserts/src/cmp/assertEqual.ts b/packages/asserts/src/cmp/assertEqual.ts
index 4cc1a6a..89dd20c 100644
--- a/packages/asserts/src/cmp/assertEqual.ts
+++ b/packages/asserts/src/cmp/assertEqual.ts
@@ -13,7 +13,7 @@ export default function assertEqual<T extends unknown[]>(
     value: unknown,
     ...args: T
 ) {
-    if (!isEqual(value, args)) {
+    if (!isEqual(value, ...args)) {
         throw new TypeError(
             `[assertEqual] ${value} 与 ${args} 中的某些值不相等`
         );
diff --git a/packages/asserts/src/cmp/assertNotEqual.ts b/packages/asserts/src/cmp/assertNotEqual.ts
index a01257a..a479b8a 100644
--- a/packages/asserts/src/cmp/assertNotEqual.ts
+++ b/packages/asserts/src/cmp/assertNotEqual.ts
@@ -13,7 +13,7 @@ export default function assertNotEqual<T extends unknown[]>(
     value: unknown,
     ...args: T
 ) {
-    if (!isNotEqual(value, args)) {
+    if (!isNotEqual(value, ...args)) {
         throw new TypeError(`[assertEqual] ${value} 与 ${args} 中的某些值相等`);
     }
 }
-- 
2.43.0


From f156077cbad4ceb17f2b96db763b67789ff63069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:47 +0000
Subject: [PATCH 058/118] fix: assertPrototypeOf always failed

---
 packages/asserts/src/property/assertPrototypeOf.ts | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/packages/asserts/src/property/assertPrototypeOf.ts b/packages/asserts/src/property/assertPrototypeOf.ts
index bbf249e..8cf929d 100644
--- a/packages/asserts/src/property/assertPrototypeOf.ts
+++ b/packages/asserts/src/property/assertPrototypeOf.ts
@@ -7,11 +7,13 @@ import typeGuard from '../constants/typeGuard';
  *
  * @param value 要验证的值
  * @param variableName 该值的变量名
+ * @param v 要检查其原型链的另一个对象
  * @throws 如果不是则会抛出类型异常
  */
 export default function assertPrototypeOf<T = unknown>(
     value: unknown,
-    variableName: string
+    variableName: string,
+    v: unknown
 ): asserts value is T {
-    return typeGuard(value, variableName, isPrototypeOf);
+    return typeGuard(value, variableName, isPrototypeOf, v);
 }
-- 
2.43.0


From 1f0f1d7fa6f91ddcfaa168f84f5558b51bc86795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:47 +0000
Subject: [PATCH 059/118] fix: isNumberValid failed for values that cannot be
 converted

---
 packages/types/src/number/isNumberValid.ts | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/packages/types/src/number/isNumberValid.ts b/packages/types/src/number/isNumberValid.ts
index 3d404e3..62cfd50 100644
--- a/packages/types/src/number/isNumberValid.ts
+++ b/packages/types/src/number/isNumberValid.ts
@@ -88,6 +88,12 @@ export default function isNumberValid(
         allowEmptyString = false
     } = options;
 
+    try {
+        Number(value);
+    } catch {
+        return false;
+    }
+
     return (
         (implicit
             ? !isUndefined(value)
-- 
2.43.0


From af73d0873b9939eca1dae75d061c1530ad753e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:55 +0000
Subject: [PATCH 060/118] fix: copy shared the entries of maps and sets with
 the original

---
 packages/util/src/copy.ts | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/packages/util/src/copy.ts b/packages/util/src/copy.ts
index 809e784..b7e0368 100644
--- a/packages/util/src/copy.ts
+++ b/packages/util/src/copy.ts
@@ -145,12 +145,35 @@ const copyByTag = <T extends object>(value: any, weak: WeakMap<T, T>) => {
         // `String` 为 `string` 的包装的形式
         case 'Date':
         case 'FileReader':
-        case 'Set':
-        case 'Map':
         case 'URL':
         case 'URLSearchParams':
             return copyBaseType(value);
 
+        case 'Set': {
+            const set = new value.constructor();
+            weak.set(value, set);
+
+            for (const v of value) {
+                set.add(isPrimitive(v) ? v : recursiveCopy(v, weak));
+            }
+
+            return set;
+        }
+
+        case 'Map': {
+            const map = new value.constructor();
+            weak.set(value, map);
+
+            for (const [k, v] of value) {
+                map.set(
+                    isPrimitive(k) ? k : recursiveCopy(k, weak),
+                    isPrimitive(v) ? v : recursiveCopy(v, weak)
+                );
+            }
+
+            return map;
+        }
+
         case 'Generator':
             return copyGenerator(value);
 
-- 
2.43.0


From f5e3405fe4599b3a0d62e1706edb0cdb5715eb25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:55 +0000
Subject: [PATCH 061/118] fix: copy lost the empty places at the end of arrays

---
 packages/util/src/copy.ts | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/packages/util/src/copy.ts b/packages/util/src/copy.ts
index b7e0368..d7550a9 100644
--- a/packages/util/src/copy.ts
+++ b/packages/util/src/copy.ts
@@ -1,6 +1,7 @@
 import {
     getTag,
     hasOwnProperty,
+    isArray,
     isBigIntPrimitive,
     isBuffer,
     isFunction,
@@ -194,6 +195,11 @@ const copyByTag = <T extends object>(value: any, weak: WeakMap<T, T>) => {
                 ? Object.create(null)
                 : new proto.constructor();
             weak.set(value, instance);
+
+            if (isArray(value)) {
+                instance.length = value.length;
+            }
+
             return copyAttrs(value, instance, weak);
         }
 
-- 
2.43.0


From 61bced7da6dc24e916a2dca8468a41cfe45b9fb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:55 +0000
Subject: [PATCH 062/118] fix: copy made several copies of the same object

---
 packages/util/src/copy.ts | 31 +++++++++++++++++++++----------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/packages/util/src/copy.ts b/packages/util/src/copy.ts
index d7550a9..9f1fa81 100644
--- a/packages/util/src/copy.ts
+++ b/packages/util/src/copy.ts
@@ -213,10 +213,17 @@ const copyByTag = <T extends object>(value: any, weak: WeakMap<T, T>) => {
         case 'URIError': {
             const ins =
                 value instanceof AggregateError
-                    ? new AggregateError(value.errors.map(copy), value.message)
+                    ? new AggregateError([], value.message)
                     : new (Object.getPrototypeOf(value).constructor)();
 
             weak.set(value, ins);
+
+            if (value instanceof AggregateError) {
+                ins.errors = value.errors.map((v: any) =>
+                    recursiveCopy(v, weak)
+                );
+            }
+
             const o = copyAttrs(value, ins, weak);
             o.stack = value.stack; // 堆栈也要一样
             return o;
@@ -260,7 +267,10 @@ const copyFunction = (value: any, weak: any) => {
         source = `return ${src};`;
     }
 
-    return copyAttrs(value, new Function(source!)(), weak);
+    const fn = new Function(source!)();
+    weak.set(value, fn);
+
+    return copyAttrs(value, fn, weak);
 };
 
 function recursiveCopy<T extends object>(
@@ -276,6 +286,10 @@ function recursiveCopy<T extends object>(
         return value;
     }
 
+    if (weak.has(value)) {
+        return weak.get(value);
+    }
+
     // 是不是函数
     // 拷贝同步函数，异步函数，箭头函数，`Generator` 函数，但是不能拷贝 `Promise`。
     if (isFunction(value)) {
@@ -283,15 +297,12 @@ function recursiveCopy<T extends object>(
     }
 
     // 是不是 `Buffer`
-    if (isBuffer(value)) {
-        return copyAttrs(value, Buffer.from(value), weak);
-    }
-
-    if (weak.has(value)) {
-        return weak.get(value);
-    }
+    const instance = isBuffer(value)
+        ? Buffer.from(value)
+        : copyByTag(value, weak);
+    weak.set(value, instance);
 
-    return copyAttrs(value, copyByTag(value, weak), weak);
+    return copyAttrs(value, instance, weak);
 }
 
 /**
-- 
2.43.0


From 740cf48b9c444dc2bf0bd5ee650ed4ffeb6d8b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:50 +0000
Subject: [PATCH 063/118] fix: copy lost the prototype of objects without
 constructor

---
 packages/util/src/copy.ts | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/packages/util/src/copy.ts b/packages/util/src/copy.ts
index 9f1fa81..aaa6f59 100644
--- a/packages/util/src/copy.ts
+++ b/packages/util/src/copy.ts
@@ -191,9 +191,11 @@ const copyByTag = <T extends object>(value: any, weak: WeakMap<T, T>) => {
         case 'Transform':
         case 'Writable': {
             const proto = Object.getPrototypeOf(value);
-            const instance = isNull(proto)
-                ? Object.create(null)
-                : new proto.constructor();
+            // 原型不是构造函数的原型时 (如 `Object.create({})`)，不能通过构造函数来创建
+            const instance =
+                isNull(proto) || proto.constructor?.prototype !== proto
+                    ? Object.create(proto)
+                    : new proto.constructor();
             weak.set(value, instance);
 
             if (isArray(value)) {
-- 
2.43.0


From 075998faa1e529843c4ad5955f0ac6ea6d228e7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:50 +0000
Subject: [PATCH 064/118] fix: copy failed for shorthand methods

---
 packages/util/src/copy.ts | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/packages/util/src/copy.ts b/packages/util/src/copy.ts
index aaa6f59..be80c80 100644
--- a/packages/util/src/copy.ts
+++ b/packages/util/src/copy.ts
@@ -269,7 +269,18 @@ const copyFunction = (value: any, weak: any) => {
         source = `return ${src};`;
     }
 
-    const fn = new Function(source!)();
+    let create: any;
+
+    try {
+        create = new Function(source!);
+    } catch {
+        // 处理对象中简写的方法，如: `{ fn() {} }`
+        create = new Function(
+            `const o = { ${src} }; return o[Reflect.ownKeys(o)[0]];`
+        );
+    }
+
+    const fn = create();
     weak.set(value, fn);
 
     return copyAttrs(value, fn, weak);
-- 
2.43.0


From 5f784bb24e890bc0730e82d6670c71cd1d550e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:34 +0000
Subject: [PATCH 065/118] fix: readline and readlineFromCode did not split
 buffers

---
 packages/fs/src/readline.ts         | 12 +++++-------
 packages/fs/src/readlineFromCode.ts | 12 +++++-------
 2 files changed, 10 insertions(+), 14 deletions(-)

diff --git a/packages/fs/src/readline.ts b/packages/fs/src/readline.ts
index b6bf366..a71003a 100644
--- a/packages/fs/src/readline.ts
+++ b/packages/fs/src/readline.ts
@@ -33,15 +33,13 @@ export default function readline(
             }
         }
 
-        // 根据 `chunk` 的类型来处理换行
-        if (isString(chunk)) {
-            toString = data => data.join('');
-            break;
+        // 先将 `Buffer` 解码为字符串，在字节中无法识别换行符
+        if (isBuffer(chunk)) {
+            chunk = chunk.toString((encoding ?? 'utf8') as BufferEncoding);
         }
 
-        if (isBuffer(chunk)) {
-            toString = data =>
-                Buffer.from(data).toString(encoding as BufferEncoding);
+        if (isString(chunk)) {
+            toString = data => data.join('');
             break;
         }
 
diff --git a/packages/fs/src/readlineFromCode.ts b/packages/fs/src/readlineFromCode.ts
index 684c10a..3be3566 100644
--- a/packages/fs/src/readlineFromCode.ts
+++ b/packages/fs/src/readlineFromCode.ts
@@ -91,15 +91,13 @@ export default function readlineFromCode(
             }
         }
 
-        // 根据 `chunk` 的类型来处理换行
-        if (isString(chunk)) {
-            toString = data => data.join('');
-            break;
+        // 先将 `Buffer` 解码为字符串，在字节中无法识别换行符
+        if (isBuffer(chunk)) {
+            chunk = chunk.toString((encoding ?? 'utf8') as BufferEncoding);
         }
 
-        if (isBuffer(chunk)) {
-            toString = data =>
-                Buffer.from(data).toString(encoding as BufferEncoding);
+        if (isString(chunk)) {
+            toString = data => data.join('');
             break;
         }
 
-- 
2.43.0


From 46f7c7a822eeace07651fd4a8fe4c826b5066974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:46 +0000
Subject: [PATCH 066/118] fix: diffFile compared the rest of its buffer and
 lost short reads

---
 packages/fs/src/diffFile.ts | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/packages/fs/src/diffFile.ts b/packages/fs/src/diffFile.ts
index 2cb11f7..b01e607 100644
--- a/packages/fs/src/diffFile.ts
+++ b/packages/fs/src/diffFile.ts
@@ -22,9 +22,22 @@ export default async function diffFile(
 
     const readChunk = async (fd: number) => {
         const buffer = Buffer.alloc(highWorkMark);
-        const readBytes = readSync(fd, buffer, 0, highWorkMark, position);
-
-        return isZero(readBytes) ? null : buffer;
+        let length = 0;
+        let readBytes: number;
+
+        // 一次读取不一定能够填满缓冲区
+        do {
+            readBytes = readSync(
+                fd,
+                buffer,
+                length,
+                highWorkMark - length,
+                position + length
+            );
+            length += readBytes;
+        } while (!isZero(readBytes) && length < highWorkMark);
+
+        return isZero(length) ? null : buffer.subarray(0, length);
     };
 
     const fileHandle1 = await open(pathString1, 'r').catch(() => null);
-- 
2.43.0


From e27aa463b3534b72b4996091bd1d460a7b932946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:25 +0000
Subject: [PATCH 067/118] fix: diffFile left files open after failures

---
 packages/fs/src/diffFile.ts | 41 +++++++++++++++++++++----------------
 1 file changed, 23 insertions(+), 18 deletions(-)

diff --git a/packages/fs/src/diffFile.ts b/packages/fs/src/diffFile.ts
index b01e607..71ad345 100644
--- a/packages/fs/src/diffFile.ts
+++ b/packages/fs/src/diffFile.ts
@@ -56,27 +56,32 @@ export default async function diffFile(
     const fd1 = fileHandle1.fd;
     const fd2 = fileHandle2.fd;
 
-    while (true) {
-        const chunk1 = await readChunk(fd1);
-        const chunk2 = await readChunk(fd2);
-        const nullChunk1 = isNull(chunk1);
-        const nullChunk2 = isNull(chunk2);
-
-        if (nullChunk1 && nullChunk2) {
-            break;
+    try {
+        while (true) {
+            const chunk1 = await readChunk(fd1);
+            const chunk2 = await readChunk(fd2);
+            const nullChunk1 = isNull(chunk1);
+            const nullChunk2 = isNull(chunk2);
+
+            if (nullChunk1 && nullChunk2) {
+                break;
+            }
+
+            if (nullChunk1 || nullChunk2 || !isZero(chunk1!.compare(chunk2!))) {
+                compared = false;
+                break;
+            }
+
+            position += highWorkMark;
         }
-
-        if (nullChunk1 || nullChunk2 || !isZero(chunk1!.compare(chunk2!))) {
-            compared = false;
-            break;
+    } finally {
+        // 关闭文件描述符
+        try {
+            await fileHandle1.close();
+        } finally {
+            await fileHandle2.close();
         }
-
-        position += highWorkMark;
     }
 
-    // 关闭文件描述符
-    await fileHandle1.close();
-    await fileHandle2.close();
-
     return compared;
 }
-- 
2.43.0


From 5db28057e9a1b244433fb161a48db5c0e2fee1d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:29 +0000
Subject: [PATCH 068/118] fix: copyFile deleted the source when it could not
 write the target

---
 packages/fs/src/copyFile.ts | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/packages/fs/src/copyFile.ts b/packages/fs/src/copyFile.ts
index 0406444..61b3f3e 100644
--- a/packages/fs/src/copyFile.ts
+++ b/packages/fs/src/copyFile.ts
@@ -6,6 +6,7 @@ import { isTrue } from '@curong/types';
 import deleteOne from './deleteOne';
 import destPath from './destPath';
 import diffFile from './diffFile';
+import isFile from './isFile';
 import type { CopyFileOptions } from './types';
 
 /**
@@ -48,8 +49,13 @@ export default async function copyFile(
         try {
             await promises.copyFile(filePath, destString);
         } catch (error) {
-            if (isTrue(options!.forcibly)) {
-                await deleteOne(filePath);
+            // 如果目标文件无法被覆盖，则先删除目标文件
+            if (
+                isTrue(options!.forcibly) &&
+                (await isFile(filePath)) &&
+                (await isFile(destString))
+            ) {
+                await deleteOne(destString);
 
                 return await copyFile(filePath, srcDir, desDir, {
                     forcibly: false
-- 
2.43.0


From 0d4cb56785a39579c9be3a1ab872c4de42b8c16c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:29 +0000
Subject: [PATCH 069/118] fix: mkdir created folders that ordinary users cannot
 enter

---
 packages/fs/src/mkdir.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/fs/src/mkdir.ts b/packages/fs/src/mkdir.ts
index 2c4c287..10971b5 100644
--- a/packages/fs/src/mkdir.ts
+++ b/packages/fs/src/mkdir.ts
@@ -10,7 +10,7 @@ import { format } from '@curong/term';
  *
  * 包括:
  * - `recursive` 指示是否应创建父文件夹，默认为 `true`
- * - `mode` 权限，默认为 `0o644`
+ * - `mode` 权限，默认为 `0o755`
  *
  * @throws
  *
@@ -23,7 +23,7 @@ export default async function mkdir(
 ): Promise<string | undefined> {
     options = {
         recursive: true,
-        mode: 0o644,
+        mode: 0o755,
         ...options
     };
 
-- 
2.43.0


From aefd1fb8f52b367517fed956bf0cfa43f712e726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:29 +0000
Subject: [PATCH 070/118] fix: copySymbolicLink linked to the link, by a path
 that may be relative

---
 packages/fs/src/copySymbolicLink.ts | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/packages/fs/src/copySymbolicLink.ts b/packages/fs/src/copySymbolicLink.ts
index d24fa9c..88e6ab0 100644
--- a/packages/fs/src/copySymbolicLink.ts
+++ b/packages/fs/src/copySymbolicLink.ts
@@ -1,5 +1,5 @@
-import { symlink } from 'fs/promises';
-import { dirname } from 'path';
+import { readlink, symlink } from 'fs/promises';
+import { dirname, resolve } from 'path';
 
 import { format } from '@curong/term';
 
@@ -50,12 +50,17 @@ export default async function copySymbolicLink(
         type = null;
     }
 
-    // 创建符号链接
-    await symlink(fromPath, toPath, type).catch(error => {
+    try {
+        // 相对路径的符号链接是相对于它所在的文件夹
+        const target = resolve(dirname(fromPath), await readlink(fromPath));
+
+        // 创建符号链接
+        await symlink(target, toPath, type);
+    } catch (error) {
         throw format({
             name,
             message: '拷贝符号链接失败，无法将fromPath拷贝到toPath',
             data: { fromPath, toPath, error }
         });
-    });
+    }
 }
-- 
2.43.0


From 88901005e636ac5b7f6a1cd359ee239834997a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:44 +0000
Subject: [PATCH 071/118] fix: copy could not copy symbolic links and followed
 the ones in folders

---
 packages/fs/src/copy.ts | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/packages/fs/src/copy.ts b/packages/fs/src/copy.ts
index 5a004e1..27f9880 100644
--- a/packages/fs/src/copy.ts
+++ b/packages/fs/src/copy.ts
@@ -6,8 +6,8 @@ import { format } from '@curong/term';
 import copySymbolicLink from './copySymbolicLink';
 import isDir from './isDir';
 import isFile from './isFile';
+import isSymbolicLink from './isSymbolicLink';
 import mkdir from './mkdir';
-import symbolicLink from './symbolicLink';
 import type { CopyFileOptions } from './types';
 
 const _copyFile = async (from: string, to: string, forcibly = false) => {
@@ -56,11 +56,10 @@ export default async function copy(
 ): Promise<void> {
     const name = 'copy';
     const { forcibly = true } = options ?? {};
-    let link: string | null;
 
     // 如果源是符号链接
-    if ((link = await symbolicLink(fromPath))) {
-        return await copySymbolicLink(link, toPath);
+    if (await isSymbolicLink(fromPath)) {
+        return await copySymbolicLink(fromPath, toPath);
     }
 
     // 如果源是文件
@@ -112,8 +111,8 @@ export default async function copy(
         from = join(fromPath, path);
         to = join(toPath, path);
 
-        if ((link = await symbolicLink(fromPath))) {
-            await copySymbolicLink(link, to);
+        if (await isSymbolicLink(from)) {
+            await copySymbolicLink(from, to);
         } else if (await isFile(from)) {
             await _copyFile(from, to, forcibly);
         } else if (await isDir(from)) {
-- 
2.43.0


From 728c373ad47fa08f0363479a9d68d864cff17bb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:44 +0000
Subject: [PATCH 072/118] fix: copy overwrote files in nested folders without
 being forced to

---
 packages/fs/src/copy.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/fs/src/copy.ts b/packages/fs/src/copy.ts
index 27f9880..259db34 100644
--- a/packages/fs/src/copy.ts
+++ b/packages/fs/src/copy.ts
@@ -116,7 +116,7 @@ export default async function copy(
         } else if (await isFile(from)) {
             await _copyFile(from, to, forcibly);
         } else if (await isDir(from)) {
-            await copy(from, to);
+            await copy(from, to, options);
         } else {
             throw format({
                 name,
-- 
2.43.0


From 8157cbb2b785985b5f254d8bb267955e72222d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:26 +0000
Subject: [PATCH 073/118] fix: copy of a folder into itself never ended

---
 packages/fs/src/copy.ts | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/packages/fs/src/copy.ts b/packages/fs/src/copy.ts
index 259db34..1b58a64 100644
--- a/packages/fs/src/copy.ts
+++ b/packages/fs/src/copy.ts
@@ -1,5 +1,5 @@
 import { copyFile, lstat, readdir } from 'fs/promises';
-import { dirname, join } from 'path';
+import { dirname, isAbsolute, join, relative, sep } from 'path';
 
 import { format } from '@curong/term';
 
@@ -44,6 +44,7 @@ const _copyFile = async (from: string, to: string, forcibly = false) => {
  * @throws
  *
  * - 如果 `fromPath` 不是文件、文件夹、符号链接则会抛出异常
+ * - 如果 `toPath` 在 `fromPath` 文件夹中则会抛出异常
  * - 如果 `toPath` 名被占用且 `toPath` 不是文件夹则会抛出异常
  * - 如果读取文件夹失败则会抛出异常
  * - 如果拷贝文件失败则会抛出异常
@@ -76,6 +77,21 @@ export default async function copy(
         });
     }
 
+    const relativePath = relative(fromPath, toPath);
+
+    // 如果目标在源文件夹中，则会无限地拷贝下去
+    if (
+        relativePath &&
+        relativePath.split(sep)[0] !== '..' &&
+        !isAbsolute(relativePath)
+    ) {
+        throw format({
+            name,
+            message: '无法将文件夹拷贝到它自己的文件夹中',
+            data: { fromPath, toPath }
+        });
+    }
+
     const toPathStat = await lstat(toPath).catch(() => null);
 
     // 如果目标名已经被占用并且目标不是一个文件夹
-- 
2.43.0


From a5b7c84a20b34c2205a105bd450b02a7c298e0b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:31 +0000
Subject: [PATCH 074/118] fix: deleteOne and clearDir failed for links to
 nothing

---
 packages/fs/src/deleteOne.ts | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/packages/fs/src/deleteOne.ts b/packages/fs/src/deleteOne.ts
index 8c663aa..912c1f0 100644
--- a/packages/fs/src/deleteOne.ts
+++ b/packages/fs/src/deleteOne.ts
@@ -4,6 +4,7 @@ import { format } from '@curong/term';
 
 import isDir from './isDir';
 import isFile from './isFile';
+import isSymbolicLink from './isSymbolicLink';
 
 /**
  * 删除一个文件或一个文件夹
@@ -14,6 +15,11 @@ import isFile from './isFile';
  * - 如果 `pathString` 不是一个有效路径，则会抛出异常
  */
 export default async function deleteOne(pathString: string): Promise<void> {
+    // 符号链接可能没有指向任何的文件或文件夹，只删除符号链接本身
+    if (await isSymbolicLink(pathString)) {
+        return await unlink(pathString);
+    }
+
     if (await isDir(pathString)) {
         return await rmdir(pathString, { recursive: true });
     }
-- 
2.43.0


From 6fc8a44a46dfb85112c359bfbed6e186e3571520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:35 +0000
Subject: [PATCH 075/118] fix: readLnk returned its error message as a path
 where there are no shortcuts

---
 packages/fs/src/readLnk.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/fs/src/readLnk.ts b/packages/fs/src/readLnk.ts
index 3bd2d50..0b480ae 100644
--- a/packages/fs/src/readLnk.ts
+++ b/packages/fs/src/readLnk.ts
@@ -29,7 +29,7 @@ export default async function readLnk(pathString: string): Promise<string> {
     pathString = normalize(pathString);
 
     if (platform !== 'win32') {
-        return format({
+        throw format({
             name: 'readLnk',
             message: '无法解析不是 ".lnk" 后缀的文件',
             data: { pathString }
-- 
2.43.0


From a34fd25c8fee10d9275008a5f0ee70ffc9e01dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:35 +0000
Subject: [PATCH 076/118] fix: readLnk failed for every shortcut

---
 packages/fs/src/readLnk.ts | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/packages/fs/src/readLnk.ts b/packages/fs/src/readLnk.ts
index 0b480ae..43fc44a 100644
--- a/packages/fs/src/readLnk.ts
+++ b/packages/fs/src/readLnk.ts
@@ -4,7 +4,7 @@ import { platform } from 'process';
 import { promisify } from 'util';
 
 import { format } from '@curong/term';
-import { isNull } from '@curong/types';
+import { isStringFilled } from '@curong/types';
 
 /**
  * 拼接适用于 `Windows` 的命令
@@ -41,7 +41,7 @@ export default async function readLnk(pathString: string): Promise<string> {
         encoding: 'utf8'
     });
 
-    if (!isNull(stderr)) {
+    if (isStringFilled(stderr)) {
         throw format({
             name: 'readLnk',
             message: '"lnk" 文件解析失败',
@@ -49,5 +49,5 @@ export default async function readLnk(pathString: string): Promise<string> {
         });
     }
 
-    return stdout;
+    return stdout.trim();
 }
-- 
2.43.0


From 92b55e269717d35f4e80e361a54cd54cd56d4c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:35 +0000
Subject: [PATCH 077/118] fix: readLnk ran parts of file names as commands

---
 packages/fs/src/readLnk.ts | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/packages/fs/src/readLnk.ts b/packages/fs/src/readLnk.ts
index 43fc44a..6b138be 100644
--- a/packages/fs/src/readLnk.ts
+++ b/packages/fs/src/readLnk.ts
@@ -1,4 +1,4 @@
-import { exec } from 'child_process';
+import { execFile } from 'child_process';
 import { normalize } from 'path';
 import { platform } from 'process';
 import { promisify } from 'util';
@@ -13,6 +13,9 @@ import { isStringFilled } from '@curong/types';
  * @returns 返回拼接好的命令字符串
  */
 function getCommand(pathString: string): string {
+    // 引号中的引号需要写两次
+    pathString = pathString.replace(/['\u2018-\u201b]/g, '$&$&');
+
     return `(New-Object -COM WScript.Shell).CreateShortcut('${pathString}').TargetPath;`;
 }
 
@@ -36,10 +39,11 @@ export default async function readLnk(pathString: string): Promise<string> {
         });
     }
 
-    const command = `powershell.exe -command ${getCommand(pathString)}`;
-    const { stdout, stderr } = await promisify(exec)(command, {
-        encoding: 'utf8'
-    });
+    const { stdout, stderr } = await promisify(execFile)(
+        'powershell.exe',
+        ['-command', getCommand(pathString)],
+        { encoding: 'utf8' }
+    );
 
     if (isStringFilled(stderr)) {
         throw format({
-- 
2.43.0


From e089e20c8b51bca921ef3921c9bd049d6102772e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:50 +0000
Subject: [PATCH 078/118] fix: readFragment gave nothing when asked for the
 first line

---
 packages/fs/src/readFragment.ts | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/packages/fs/src/readFragment.ts b/packages/fs/src/readFragment.ts
index 37144ff..bef8b53 100644
--- a/packages/fs/src/readFragment.ts
+++ b/packages/fs/src/readFragment.ts
@@ -49,11 +49,20 @@ export default function readFragment(
             readStream.on('error', error => reject(error));
 
             readStream.on('data', chunk => {
-                if (firstLine) {
-                    return chunk;
+                data += chunk;
+
+                if (!firstLine) {
+                    return;
                 }
 
-                return (data += chunk);
+                const index = data.search(/[\r\n]/);
+
+                // 已经读取到了第一行，不需要再继续读取
+                if (index !== -1) {
+                    data = data.slice(0, index);
+                    resolve(data);
+                    readStream.destroy();
+                }
             });
 
             readStream.on('end', () => resolve(data));
-- 
2.43.0


From 75397a462f4f6ee4edbc9adcb3eee2528cdb5f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:04 +0000
Subject: [PATCH 079/118] fix: readlineStream never settled when the file could
 not be read, and needed to be allowed to write it

---
 packages/fs/src/readlineStream.ts | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/packages/fs/src/readlineStream.ts b/packages/fs/src/readlineStream.ts
index 1f8489c..4028715 100644
--- a/packages/fs/src/readlineStream.ts
+++ b/packages/fs/src/readlineStream.ts
@@ -51,16 +51,19 @@ export default async function readlineStream(
         }
     }
 
-    return new Promise(resolve => {
-        const stream = createInterface({
-            input: createReadStream(pathString, {
-                encoding: encoding as BufferEncoding,
-                flags: 'r+',
-                mode: 0o755,
-                autoClose: true,
-                highWaterMark: 64 * 1024
-            })
+    return new Promise((resolve, reject) => {
+        const input = createReadStream(pathString, {
+            encoding: encoding as BufferEncoding,
+            flags: 'r',
+            mode: 0o755,
+            autoClose: true,
+            highWaterMark: 64 * 1024
         });
+        const stream = createInterface({ input });
+
+        // 新版本的 Node.js 还会将 `input` 的错误转发到 `stream` 上
+        input.on('error', reject);
+        stream.on('error', reject);
 
         stream.on('line', callback as ReadlineStreamCallback);
 
-- 
2.43.0


From c366b9a87ab6fb872e400fa97390264fe6c763ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:04 +0000
Subject: [PATCH 080/118] fix: readlineStream gave true instead of no lines

---
 packages/fs/src/readlineStream.ts | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/packages/fs/src/readlineStream.ts b/packages/fs/src/readlineStream.ts
index 4028715..c9d49f9 100644
--- a/packages/fs/src/readlineStream.ts
+++ b/packages/fs/src/readlineStream.ts
@@ -40,12 +40,14 @@ export default async function readlineStream(
     }
 
     const ret: string[] = [];
+    let hasCallback = true;
 
     if (!isFunctionFilled(callback)) {
         if (isFunctionFilled(encoding)) {
             callback = encoding;
             encoding = 'utf8';
         } else {
+            hasCallback = false;
             callback = (input: string) => ret.push(input);
             encoding = encoding ?? 'utf8';
         }
@@ -70,11 +72,7 @@ export default async function readlineStream(
         stream.once('close', () => {
             stream.removeAllListeners();
 
-            if (ret.length > 0) {
-                return resolve(ret);
-            }
-
-            return resolve(true);
+            return resolve(hasCallback ? true : ret);
         });
     });
 }
-- 
2.43.0


From 63f5c9ddbf231d249fbbb4f828b34033252af274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:04 +0000
Subject: [PATCH 081/118] fix: writeFile failed for empty objects and wrote
 nothing for empty lists

---
 packages/fs/src/writeFile.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/fs/src/writeFile.ts b/packages/fs/src/writeFile.ts
index 65f8685..6a780bd 100644
--- a/packages/fs/src/writeFile.ts
+++ b/packages/fs/src/writeFile.ts
@@ -2,7 +2,7 @@ import { promises } from 'fs';
 import { dirname } from 'path';
 
 import { format } from '@curong/term';
-import { isArrayFilled, isObjectFilled } from '@curong/types';
+import { isArray, isObject } from '@curong/types';
 
 import mkdir from './mkdir';
 import type { WriteFileOptions } from './types';
@@ -40,7 +40,7 @@ export default async function writeFile(
         ...options
     };
 
-    if (options.isFormat && (isObjectFilled(data) || isArrayFilled(data))) {
+    if (options.isFormat && (isObject(data) || isArray(data))) {
         try {
             data = JSON.stringify(data);
         } catch (error) {
-- 
2.43.0


From 5b89d3b35d031176590310d11c1f8cc5210022d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:04 +0000
Subject: [PATCH 082/118] fix: writeFile did not create folders by default, as
 documented

---
 packages/fs/src/writeFile.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/fs/src/writeFile.ts b/packages/fs/src/writeFile.ts
index 6a780bd..fba355d 100644
--- a/packages/fs/src/writeFile.ts
+++ b/packages/fs/src/writeFile.ts
@@ -35,7 +35,7 @@ export default async function writeFile(
         encoding: 'utf8',
         flag: 'w+',
         mode: 0o755,
-        isMkdir: false,
+        isMkdir: true,
         isFormat: true,
         ...options
     };
-- 
2.43.0


From 7a08fb9704cae1b1968447dfe44b1e113a90c495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:17 +0000
Subject: [PATCH 083/118] fix: kill sent its signal twice to all but the first
 process

---
 packages/os/src/kill.ts | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/packages/os/src/kill.ts b/packages/os/src/kill.ts
index 1a10c16..540988f 100644
--- a/packages/os/src/kill.ts
+++ b/packages/os/src/kill.ts
@@ -23,11 +23,13 @@ const killAll = (
     signal?: string | number,
     callback?: (error?: any) => void
 ) => {
-    const killed = new Set();
+    const killed = new Set<number>();
 
     try {
-        Object.keys(tree).forEach(pid => {
-            tree[+pid].forEach(p => {
+        Object.keys(tree).forEach(key => {
+            const pid = +key;
+
+            tree[pid].forEach(p => {
                 if (!killed.has(p)) {
                     killPid(p, signal);
                     killed.add(p);
@@ -35,7 +37,7 @@ const killAll = (
             });
 
             if (!killed.has(pid)) {
-                killPid(+pid, signal);
+                killPid(pid, signal);
                 killed.add(pid);
             }
         });
-- 
2.43.0


From 221c28ae59e2fa96c38bc4495fbc464e09a67ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:17 +0000
Subject: [PATCH 084/118] fix: kill lost processes that changed their parent,
 and could call back twice or never

---
 packages/os/src/kill.ts | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/packages/os/src/kill.ts b/packages/os/src/kill.ts
index 540988f..dd83265 100644
--- a/packages/os/src/kill.ts
+++ b/packages/os/src/kill.ts
@@ -62,7 +62,7 @@ const buildProcessTree = (
     cb: (error?: any) => void
 ) => {
     const ps = spawnChildProcessesList(`${parentPid}`);
-    let allData: string;
+    let allData = '';
 
     ps.stdout.on('data', data => {
         allData += data.toString('ascii');
@@ -71,16 +71,16 @@ const buildProcessTree = (
     ps.on('close', code => {
         pidsToProcess.delete(parentPid);
 
-        if (code != 0) {
-            if (pidsToProcess.size < 1) {
-                cb();
-            }
-
-            return;
-        }
+        const pids = code === 0 ? allData.match(/\d+/g) ?? [] : [];
 
-        (allData.match(/\d+/g) ?? []).forEach(pid => {
+        pids.forEach(pid => {
             const p = +pid;
+
+            // 进程可能会在查找期间更换父进程
+            if (tree[p]) {
+                return;
+            }
+
             tree[parentPid].push(p);
             tree[p] = [];
             pidsToProcess.add(p);
@@ -92,6 +92,10 @@ const buildProcessTree = (
                 cb
             );
         });
+
+        if (pidsToProcess.size < 1) {
+            cb();
+        }
     });
 };
 
-- 
2.43.0


From 77290319a14ba4f4c0f61b0ba403d71411f6c2d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:17 +0000
Subject: [PATCH 085/118] fix: kill ended the program when the processes could
 not be listed

---
 packages/os/src/kill.ts | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/packages/os/src/kill.ts b/packages/os/src/kill.ts
index dd83265..16c991e 100644
--- a/packages/os/src/kill.ts
+++ b/packages/os/src/kill.ts
@@ -64,6 +64,8 @@ const buildProcessTree = (
     const ps = spawnChildProcessesList(`${parentPid}`);
     let allData = '';
 
+    ps.on('error', cb);
+
     ps.stdout.on('data', data => {
         allData += data.toString('ascii');
     });
@@ -138,6 +140,25 @@ function kill(
     tree[pid] = [];
     pidsToProcess.add(pid);
 
+    let isDone = false;
+    const done = (error?: any) => {
+        if (isDone) {
+            return;
+        }
+
+        isDone = true;
+
+        if (!error) {
+            return killAll(tree, signal as any, callback);
+        }
+
+        if (callback) {
+            return callback(error);
+        }
+
+        throw error;
+    };
+
     switch (platform) {
         case 'win32':
             exec(`taskkill /T /F /PID ${pid}`, callback);
@@ -149,7 +170,7 @@ function kill(
                 tree,
                 pidsToProcess,
                 pid => spawn('pgrep', ['-P', pid]),
-                () => killAll(tree, signal as any, callback)
+                done
             );
             break;
 
@@ -167,7 +188,7 @@ function kill(
                         pid
                     ]);
                 },
-                () => killAll(tree, signal as any, callback)
+                done
             );
             break;
 
-- 
2.43.0


From d0718353a5d228203494ddf4534c12d0d6561ee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:17 +0000
Subject: [PATCH 086/118] fix: kill took the empty string for all processes

---
 packages/os/src/kill.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/packages/os/src/kill.ts b/packages/os/src/kill.ts
index 16c991e..68ef497 100644
--- a/packages/os/src/kill.ts
+++ b/packages/os/src/kill.ts
@@ -125,7 +125,8 @@ function kill(
         signal = undefined;
     }
 
-    if (!isUintSafe((pid = +pid))) {
+    // `0` 是当前进程所在的进程组，而不是一个进程
+    if (!isUintSafe((pid = +pid)) || pid === 0) {
         const e = new Error(`[kill] pid 必须是一个数字: ${pid}`);
 
         if (callback) {
-- 
2.43.0


From 78a7be7f38917f2a592ccc95bada70a01f02f39b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:17 +0000
Subject: [PATCH 087/118] fix: normalize took other files for the home folder
 and lost it in ~/..

---
 packages/path/src/normalize.ts | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/packages/path/src/normalize.ts b/packages/path/src/normalize.ts
index 1db41fa..d6a181e 100644
--- a/packages/path/src/normalize.ts
+++ b/packages/path/src/normalize.ts
@@ -17,5 +17,7 @@ const homeDirectory = homedir();
  * @throw 如果 pathString 不是有效的路径字符串，则会抛出异常
  */
 export default function normalize(pathString: string): string {
-    return _normalize(pathString).replace(/^~(?=$|\/|\\)/, homeDirectory);
+    return _normalize(
+        pathString.replace(/^~(?=$|\/|\\)/, () => homeDirectory)
+    );
 }
-- 
2.43.0


From bb72bbf110a7f7823d6933372c748604a1fcb958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:41 +0000
Subject: [PATCH 088/118] fix: isWindowsPath took exponential time for names
 that end with a dot or blank

---
 packages/path/src/windowsPathSource.ts | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/packages/path/src/windowsPathSource.ts b/packages/path/src/windowsPathSource.ts
index d66ab0a..140f151 100644
--- a/packages/path/src/windowsPathSource.ts
+++ b/packages/path/src/windowsPathSource.ts
@@ -5,14 +5,14 @@
  *
  * ```typescript
  * const pathWin =
- '(((\\\\\\\\\\?\\\\)?[a-zA-Z]:\\\\?)|\\.{1,2})(\\\\((?![<>:"/\\\\|?*]|CON|PRN|AUX|NUL|COM[1-9]|LPT[1-9])(.*[^.\\s])*)+)+';
+ '(((\\\\\\\\\\?\\\\)?[a-zA-Z]:\\\\?)|\\.{1,2})(\\\\(?![<>:"/\\\\|?*]|CON|PRN|AUX|NUL|COM[1-9]|LPT[1-9])(.*[^.\\s])?)';
  * // \\?(?!CON|PRN|AUX|NUL|COM[1-9]|LPT[1-9]|\.| )([^<>:"/\\|?*]))
  *
- * const reg1 = /(((\\\\\?\\)?[a-zA-Z]:\\?)|\.{1,2})(\\((?![<>:"/\\|?*]|CON|PRN|AUX|NUL|COM[1-9]|LPT[1-9])(.*[^.\s])*)+)+/;
+ * const reg1 = /(((\\\\\?\\)?[a-zA-Z]:\\?)|\.{1,2})(\\(?![<>:"/\\|?*]|CON|PRN|AUX|NUL|COM[1-9]|LPT[1-9])(.*[^.\s])?)/;
  * ```
  * @link [docs.microsoft](https://docs.microsoft.com/zh-cn/windows/win32/fileio/naming-a-file?redirectedfrom=MSDN)
  */
 const windowsPathSource =
-    '(((\\\\\\\\\\?\\\\)?[a-zA-Z]:\\\\?)|\\.{1,2})(\\\\((?![<>:"/\\\\|?*]|CON|PRN|AUX|NUL|COM[1-9]|LPT[1-9])(.*[^.\\s])*)+)+';
+    '(((\\\\\\\\\\?\\\\)?[a-zA-Z]:\\\\?)|\\.{1,2})(\\\\(?![<>:"/\\\\|?*]|CON|PRN|AUX|NUL|COM[1-9]|LPT[1-9])(.*[^.\\s])?)';
 
 export default windowsPathSource;
-- 
2.43.0


From 18d5a413916c3567443d92af8cf5460c3c7a294c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:41 +0000
Subject: [PATCH 089/118] fix: isWindowsPath refused names that only begin with
 a reserved name

---
 packages/path/src/windowsPathSource.ts | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/packages/path/src/windowsPathSource.ts b/packages/path/src/windowsPathSource.ts
index 140f151..c3269de 100644
--- a/packages/path/src/windowsPathSource.ts
+++ b/packages/path/src/windowsPathSource.ts
@@ -5,14 +5,14 @@
  *
  * ```typescript
  * const pathWin =
- '(((\\\\\\\\\\?\\\\)?[a-zA-Z]:\\\\?)|\\.{1,2})(\\\\(?![<>:"/\\\\|?*]|CON|PRN|AUX|NUL|COM[1-9]|LPT[1-9])(.*[^.\\s])?)';
+ '(((\\\\\\\\\\?\\\\)?[a-zA-Z]:\\\\?)|\\.{1,2})(\\\\(?![<>:"/\\\\|?*]|(?:CON|PRN|AUX|NUL|COM[1-9]|LPT[1-9])(?:\\\\|$))(.*[^.\\s])?)';
  * // \\?(?!CON|PRN|AUX|NUL|COM[1-9]|LPT[1-9]|\.| )([^<>:"/\\|?*]))
  *
- * const reg1 = /(((\\\\\?\\)?[a-zA-Z]:\\?)|\.{1,2})(\\(?![<>:"/\\|?*]|CON|PRN|AUX|NUL|COM[1-9]|LPT[1-9])(.*[^.\s])?)/;
+ * const reg1 = /(((\\\\\?\\)?[a-zA-Z]:\\?)|\.{1,2})(\\(?![<>:"/\\|?*]|(?:CON|PRN|AUX|NUL|COM[1-9]|LPT[1-9])(?:\\|$))(.*[^.\s])?)/;
  * ```
  * @link [docs.microsoft](https://docs.microsoft.com/zh-cn/windows/win32/fileio/naming-a-file?redirectedfrom=MSDN)
  */
 const windowsPathSource =
-    '(((\\\\\\\\\\?\\\\)?[a-zA-Z]:\\\\?)|\\.{1,2})(\\\\(?![<>:"/\\\\|?*]|CON|PRN|AUX|NUL|COM[1-9]|LPT[1-9])(.*[^.\\s])?)';
+    '(((\\\\\\\\\\?\\\\)?[a-zA-Z]:\\\\?)|\\.{1,2})(\\\\(?![<>:"/\\\\|?*]|(?:CON|PRN|AUX|NUL|COM[1-9]|LPT[1-9])(?:\\\\|$))(.*[^.\\s])?)';
 
 export default windowsPathSource;
-- 
2.43.0


From bc8db4472b3e3c6eb731643a64683e3b6bb473ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:19 +0000
Subject: [PATCH 090/118] fix: execAll never ended for patterns that match
 nothing

---
 packages/regexp/src/execAll.ts | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/packages/regexp/src/execAll.ts b/packages/regexp/src/execAll.ts
index 50525e8..31a04eb 100644
--- a/packages/regexp/src/execAll.ts
+++ b/packages/regexp/src/execAll.ts
@@ -183,8 +183,20 @@ export default function execAll(
 
     do {
         match = reg.exec(str) as RegExpExecOrigin;
-        match && res.push(keyOrCallback(match));
-    } while (reg.global && match);
+
+        if (!match) {
+            break;
+        }
+
+        // 匹配到空字符串时 `lastIndex` 不会改变，需要手动移动到下一个字符
+        if (reg.global && match[0] === '') {
+            const isUnicode = /[uv]/.test(reg.flags);
+            const code = isUnicode ? str.codePointAt(reg.lastIndex)! : 0;
+            reg.lastIndex += code > 0xffff ? 2 : 1;
+        }
+
+        res.push(keyOrCallback(match));
+    } while (reg.global);
 
     return res;
 }
-- 
2.43.0


From 0ed0d8d2abd529ad082e19d9ff3cfa37c26ceece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:19 +0000
Subject: [PATCH 091/118] fix: testEvery and testSome depended on earlier tests
 with the same global pattern

---
 packages/regexp/src/testEvery.ts | 3 ++-
 packages/regexp/src/testSome.ts  | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/packages/regexp/src/testEvery.ts b/packages/regexp/src/testEvery.ts
index 5fd75bd..676e54c 100644
--- a/packages/regexp/src/testEvery.ts
+++ b/packages/regexp/src/testEvery.ts
@@ -32,7 +32,8 @@ export default function testEvery(
     }
 
     for (let i = 0, len = regexps.length; i < len; i++) {
-        if (!regexps[i].test(str)) {
+        // `search` 不受 `lastIndex` 的影响
+        if (str.search(regexps[i]) === -1) {
             return false;
         }
     }
diff --git a/packages/regexp/src/testSome.ts b/packages/regexp/src/testSome.ts
index e8430be..0c1c7fc 100644
--- a/packages/regexp/src/testSome.ts
+++ b/packages/regexp/src/testSome.ts
@@ -29,7 +29,8 @@ export default function testSome(regexps: RegExp[], str: string): boolean {
     }
 
     for (let i = 0, len = regexps.length; i < len; i++) {
-        if (regexps[i].test(str)) {
+        // `search` 不受 `lastIndex` 的影响
+        if (str.search(regexps[i]) !== -1) {
             return true;
         }
     }
-- 
2.43.0


From a41ea520d16a4cf915e0ab5f95f8b88a61180095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:19 +0000
Subject: [PATCH 092/118] fix: testEvery and testSome accepted the empty string

---
 packages/regexp/src/testEvery.ts | 4 ++++
 packages/regexp/src/testSome.ts  | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/packages/regexp/src/testEvery.ts b/packages/regexp/src/testEvery.ts
index 676e54c..2bdba6c 100644
--- a/packages/regexp/src/testEvery.ts
+++ b/packages/regexp/src/testEvery.ts
@@ -31,6 +31,10 @@ export default function testEvery(
         throw new TypeError('[testEvery]: str和regexps不能同时为空');
     }
 
+    if (str.length === 0) {
+        return false;
+    }
+
     for (let i = 0, len = regexps.length; i < len; i++) {
         // `search` 不受 `lastIndex` 的影响
         if (str.search(regexps[i]) === -1) {
diff --git a/packages/regexp/src/testSome.ts b/packages/regexp/src/testSome.ts
index 0c1c7fc..37eda01 100644
--- a/packages/regexp/src/testSome.ts
+++ b/packages/regexp/src/testSome.ts
@@ -28,6 +28,10 @@ export default function testSome(regexps: RegExp[], str: string): boolean {
         throw new TypeError('[testSome]: str和regexps不能同时为空');
     }
 
+    if (str.length === 0) {
+        return false;
+    }
+
     for (let i = 0, len = regexps.length; i < len; i++) {
         // `search` 不受 `lastIndex` 的影响
         if (str.search(regexps[i]) !== -1) {
-- 
2.43.0


From 18a5c5c7d6ad94742f63084e3fb6113792a0ba77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:19 +0000
Subject: [PATCH 093/118] fix: isURI failed for addresses that cannot be
 decoded

---
 packages/regexp/src/isURI.ts | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/packages/regexp/src/isURI.ts b/packages/regexp/src/isURI.ts
index 1bfd833..54b2a45 100644
--- a/packages/regexp/src/isURI.ts
+++ b/packages/regexp/src/isURI.ts
@@ -45,5 +45,15 @@ import { uri as sourceURI } from './source';
 export default function isURI(uri: string): boolean {
     const reg = new RegExp(`^${sourceURI}$`);
 
-    return reg.test(uri) && encodeURI(decodeURI(uri)).length <= 2e3;
+
+    if (!reg.test(uri)) {
+        return false;
+    }
+
+    try {
+        return encodeURI(decodeURI(uri)).length <= 2e3;
+    } catch {
+        // 无法解码的 `%` 编码
+        return false;
+    }
 }
-- 
2.43.0


From 45906eaef8242710644de9157ad1f0d9c6e6b068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:19 +0000
Subject: [PATCH 094/118] fix: isEmail measured the wrong parts of addresses
 with several @

---
 packages/regexp/src/isEmail.ts | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/packages/regexp/src/isEmail.ts b/packages/regexp/src/isEmail.ts
index e4b6e60..8471772 100644
--- a/packages/regexp/src/isEmail.ts
+++ b/packages/regexp/src/isEmail.ts
@@ -19,7 +19,8 @@ export default function isEmail(email: string): boolean {
         return false;
     }
 
-    const [username, domains] = email.split('@');
+    // 被引号包裹的用户名中也可以包含 `@`
+    const index = email.lastIndexOf('@');
 
-    return username.length <= 64 && domains.length <= 255;
+    return index <= 64 && email.length - index - 1 <= 255;
 }
-- 
2.43.0


From 11d990d0da6d838493581528ce52ad283de75f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:19 +0000
Subject: [PATCH 095/118] fix: isIp accepted any text behind an address and
 refused IPv4 and ::

---
 packages/regexp/src/isIp.ts | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/packages/regexp/src/isIp.ts b/packages/regexp/src/isIp.ts
index bb54e3f..a70d740 100644
--- a/packages/regexp/src/isIp.ts
+++ b/packages/regexp/src/isIp.ts
@@ -1,6 +1,25 @@
 /** 验证 `IP` 地址的正则表达式 */
-const ipReg =
-    /^(?:(?:[0-9a-f]{1,4}:){7}[0-9a-f]{1,4}|(([0-9a-f]{1,4}:){6}:[0-9a-f]{1,4})|(([0-9a-f]{1,4}:){5}:([0-9a-f]{1,4}:)?[0-9a-f]{1,4})|(([0-9a-f]{1,4}:){4}:([0-9a-f]{1,4}:){0,2}[0-9a-f]{1,4})|(([0-9a-f]{1,4}:){3}:([0-9a-f]{1,4}:){0,3}[0-9a-f]{1,4})|(([0-9a-f]{1,4}:){2}:([0-9a-f]{1,4}:){0,4}[0-9a-f]{1,4})|(([0-9a-f]{1,4}:){6}((\b((25[0-5])|(1\d{2})|(2[0-4]\d)|(\d{1,2}))\b)\.){3}(\b((25[0-5])|(1\d{2})|(2[0-4]\d)|(\d{1,2}))\b))|(([0-9a-f]{1,4}:){0,5}:((\b((25[0-5])|(1\d{2})|(2[0-4]\d)|(\d{1,2}))\b)\.){3}(\b((25[0-5])|(1\d{2})|(2[0-4]\d)|(\d{1,2}))\b))|(::([0-9a-f]{1,4}:){0,5}((\b((25[0-5])|(1\d{2})|(2[0-4]\d)|(\d{1,2}))\b)\.){3}(\b((25[0-5])|(1\d{2})|(2[0-4]\d)|(\d{1,2}))\b))|([0-9a-f]{1,4}::([0-9a-f]{1,4}:){0,5}[0-9a-f]{1,4})|(::([0-9a-f]{1,4}:){0,6}[0-9a-f]{1,4})|(([0-9a-f]{1,4}:){1,7}:))|\[(?:(?:[0-9a-f]{1,4}:){7}[0-9a-f]{1,4}|(([0-9a-f]{1,4}:){6}:[0-9a-f]{1,4})|(([0-9a-f]{1,4}:){5}:([0-9a-f]{1,4}:)?[0-9a-f]{1,4})|(([0-9a-f]{1,4}:){4}:([0-9a-f]{1,4}:){0,2}[0-9a-f]{1,4})|(([0-9a-f]{1,4}:){3}:([0-9a-f]{1,4}:){0,3}[0-9a-f]{1,4})|(([0-9a-f]{1,4}:){2}:([0-9a-f]{1,4}:){0,4}[0-9a-f]{1,4})|(([0-9a-f]{1,4}:){6}((\b((25[0-5])|(1\d{2})|(2[0-4]\d)|(\d{1,2}))\b)\.){3}(\b((25[0-5])|(1\d{2})|(2[0-4]\d)|(\d{1,2}))\b))|(([0-9a-f]{1,4}:){0,5}:((\b((25[0-5])|(1\d{2})|(2[0-4]\d)|(\d{1,2}))\b)\.){3}(\b((25[0-5])|(1\d{2})|(2[0-4]\d)|(\d{1,2}))\b))|(::([0-9a-f]{1,4}:){0,5}((\b((25[0-5])|(1\d{2})|(2[0-4]\d)|(\d{1,2}))\b)\.){3}(\b((25[0-5])|(1\d{2})|(2[0-4]\d)|(\d{1,2}))\b))|([0-9a-f]{1,4}::([0-9a-f]{1,4}:){0,5}[0-9a-f]{1,4})|(::([0-9a-f]{1,4}:){0,6}[0-9a-f]{1,4})|(([0-9a-f]{1,4}:){1,7}:))](?::(?:6553[0-5]|655[0-2][0-9]|65[0-4][0-9]{2}|6[0-4][0-9]{3}|[1-5][0-9]{4}|[1-9][0-9]{1,3}|[0-9]))?$/i;
+const h16 = '[0-9a-f]{1,4}';
+const octet = '(?:25[0-5]|2[0-4]\\d|1\\d{2}|[1-9]?\\d)';
+const ipv4 = `${octet}(?:\\.${octet}){3}`;
+const ls32 = `(?:${h16}:${h16}|${ipv4})`;
+const ipv6 = [
+    `(?:${h16}:){6}${ls32}`,
+    `::(?:${h16}:){5}${ls32}`,
+    `(?:${h16})?::(?:${h16}:){4}${ls32}`,
+    `(?:(?:${h16}:){0,1}${h16})?::(?:${h16}:){3}${ls32}`,
+    `(?:(?:${h16}:){0,2}${h16})?::(?:${h16}:){2}${ls32}`,
+    `(?:(?:${h16}:){0,3}${h16})?::${h16}:${ls32}`,
+    `(?:(?:${h16}:){0,4}${h16})?::${ls32}`,
+    `(?:(?:${h16}:){0,5}${h16})?::${h16}`,
+    `(?:(?:${h16}:){0,6}${h16})?::`
+].join('|');
+const port =
+    '(?:6553[0-5]|655[0-2][0-9]|65[0-4][0-9]{2}|6[0-4][0-9]{3}|[1-5][0-9]{4}|[1-9][0-9]{1,3}|[0-9])';
+const ipReg = new RegExp(
+    `^(?:${ipv4}|${ipv6}|\\[(?:${ipv6})](?::${port})?)$`,
+    'i'
+);
 
 /**
  * 是不是一个 `IP` 地址
-- 
2.43.0


From 2c23f9e3af9267404da714fb5af65a4cafa69d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:31 +0000
Subject: [PATCH 096/118] fix: ansiFormat did not end rapid blinking

---
 packages/term/src/ansiFormat.ts | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/packages/term/src/ansiFormat.ts b/packages/term/src/ansiFormat.ts
index 570a58d..9827189 100644
--- a/packages/term/src/ansiFormat.ts
+++ b/packages/term/src/ansiFormat.ts
@@ -61,6 +61,11 @@ export default function ansiFormat(
             continue;
         }
 
+        // `25` 同时用于 `blink` 和 `rapidBlink`
+        if (key === 'rapidBlink') {
+            resetAppend--;
+        }
+
         switch (key) {
             case 'bold':
                 // `22` 和 `21` 的作用相同
-- 
2.43.0


From 9e0d94b8512c795bcb7559f0cde3c7316e0d825f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:31 +0000
Subject: [PATCH 097/118] fix: ProgressBar showed one percent too few, and
 failed without anything to do

---
 packages/term/src/progressBar.ts | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/packages/term/src/progressBar.ts b/packages/term/src/progressBar.ts
index 41ac71d..4d6b71f 100644
--- a/packages/term/src/progressBar.ts
+++ b/packages/term/src/progressBar.ts
@@ -85,13 +85,15 @@ export default class ProgressBar {
         if (isUintSafe(total)) {
             // 有限
             if (picture) {
-                const finish = Math.floor((lastIndex / total!) * 10);
+                const finish = total ? Math.floor((lastIndex * 10) / total) : 10;
                 const text = '#'.repeat(finish).padEnd(10, ' ');
                 bars.push(`[${text}]`);
             }
 
             if (percentage) {
-                const number = Math.floor((lastIndex / total!) * 100);
+                const number = total
+                    ? Math.floor((lastIndex * 100) / total)
+                    : 100;
                 bars.push(`${number}%`);
             }
 
-- 
2.43.0


From ea881e1a2174c19f68455cbfa3ff7e538dc23943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:31 +0000
Subject: [PATCH 098/118] fix: ProgressBar did not end when it was complete

---
 packages/term/src/progressBar.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/term/src/progressBar.ts b/packages/term/src/progressBar.ts
index 4d6b71f..1fe9898 100644
--- a/packages/term/src/progressBar.ts
+++ b/packages/term/src/progressBar.ts
@@ -161,7 +161,7 @@ export default class ProgressBar {
     write(value: string = ''): boolean {
         stdout.write(`${clearLine()}${this.record.join(' ')} ${value}`);
 
-        return isEqual(this.options.total, this.index) && this.end();
+        return isEqual(this.options.total, this.index + 1) && this.end();
     }
 
     /**
-- 
2.43.0


From 3c1981777b12a9ed409d827fca9676bfbe87d552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:31 +0000
Subject: [PATCH 099/118] fix: format took signs of percent in titles for
 placeholders

---
 packages/term/src/format.ts | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/packages/term/src/format.ts b/packages/term/src/format.ts
index 655f550..1e52226 100644
--- a/packages/term/src/format.ts
+++ b/packages/term/src/format.ts
@@ -244,5 +244,10 @@ export default function format(info: ForMatInfo, options?: ForMatOptions) {
         styleText.push(LF);
     }
 
+    // 第一个值中的 `%` 不是占位符
+    if (styleText.length > 1) {
+        styleText[0] = styleText[0].replace(/%/g, '%%');
+    }
+
     return formatWithOptions({ ...options }, ...styleText);
 }
-- 
2.43.0


From 81287bbfcbdd5865846d12ab0b01ddf92c3ff14a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:11 +0000
Subject: [PATCH 100/118] fix: killWindowsTask told success and failure the
 wrong way round, and ran names as commands

---
 packages/os/src/windows/killTask.ts | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/packages/os/src/windows/killTask.ts b/packages/os/src/windows/killTask.ts
index 668785b..caf2671 100644
--- a/packages/os/src/windows/killTask.ts
+++ b/packages/os/src/windows/killTask.ts
@@ -1,4 +1,4 @@
-import { exec } from '@curong/process';
+import { spawn } from '@curong/process';
 
 /**
  * 结束一个正在运行的 `Windows` 系统平台上的映像进程
@@ -16,8 +16,8 @@ import { exec } from '@curong/process';
 export default async function killWindowsTask(
     imageName: string
 ): Promise<boolean> {
-    const command = ['taskkill', '/F', '/T', '/IM', `"${imageName}"`];
-    const executed = await exec(command).catch(() => ({ stderr: 'error' }));
+    const args = ['/F', '/T', '/IM', imageName];
+    const executed = await spawn('taskkill', args).catch(() => null);
 
-    return executed.stderr.length > 0;
+    return executed?.status === 0;
 }
-- 
2.43.0


From e6d80ced4cdd52bbda1eba32f8d2d86c434e66e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:11 +0000
Subject: [PATCH 101/118] fix: windowsMakeShortcut returned its error instead
 of throwing it on other systems

---
 packages/os/src/windows/makeShortcut.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/os/src/windows/makeShortcut.ts b/packages/os/src/windows/makeShortcut.ts
index 01492fc..f6d8a3e 100644
--- a/packages/os/src/windows/makeShortcut.ts
+++ b/packages/os/src/windows/makeShortcut.ts
@@ -85,7 +85,7 @@ export default async function windowsMakeShortcut(
     options?: ShortcutOptions
 ) {
     if (!isWindows) {
-        return new Error(
+        throw new Error(
             '[windowsMakeShortcut]: 当前不是 Windows 系统，无法执行操作'
         );
     }
-- 
2.43.0


From 4a9966a381e0b4e448a794188ba8269db71355f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:49 +0000
Subject: [PATCH 102/118] fix: windowsTaskList mixed up the columns of names
 with several blanks

---
 packages/os/src/windows/taskList.ts | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/packages/os/src/windows/taskList.ts b/packages/os/src/windows/taskList.ts
index dcfc2ac..0c7e9fe 100644
--- a/packages/os/src/windows/taskList.ts
+++ b/packages/os/src/windows/taskList.ts
@@ -38,11 +38,18 @@ export default async function windowsTaskList(): Promise<WindowsTaskListResult>
     const taskSplit = stdout.toString().trim().split('\n');
 
     return taskSplit.map((task: string) => {
-        const splitChunk = task.trim().split(/\s{2,}/);
-        const [imageName, pidAndSession, sessionId, mem] = splitChunk;
-        const [pid, sessionName] = pidAndSession.split(/ /);
-        const memusage = mem.split(' ')[0].replace(/,/g, '');
-        const session = { name: sessionName, id: sessionId };
+        // 映像名称中可以有连续的空格，它与 `PID` 之间也可以只有一个空格
+        const matched = task
+            .trim()
+            .match(/^(.*?) +(\d+) (\S*) +(\d+) +(\S+)(?: \S+)?$/);
+
+        if (!matched) {
+            throw new Error(`[windowsTaskList]: 无法识别的进程: "${task}"`);
+        }
+
+        const [, imageName, pid, name, id, mem] = matched;
+        const memusage = mem.replace(/,/g, '');
+        const session = { name, id };
 
         return { imageName, pid, memusage, session };
     });
-- 
2.43.0


From f39dd6879ce77a7d3c5bd998dc5b0100ebf73b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:49 +0000
Subject: [PATCH 103/118] fix: open started no shell, and so nothing, in WSL

---
 packages/process/src/open.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/packages/process/src/open.ts b/packages/process/src/open.ts
index 4fc6f13..3096784 100644
--- a/packages/process/src/open.ts
+++ b/packages/process/src/open.ts
@@ -39,7 +39,8 @@ export default async function open(
 
     if (!command) {
         if (platform === 'win32') {
-            options.shell = process.env.ComSpec;
+            // WSL 中没有 `ComSpec`
+            options.shell = process.env.ComSpec || 'cmd.exe';
 
             // 设置当前命令的标题为空，确保不会意外地将第一个参数解释为标题
             command = 'start ""';
-- 
2.43.0


From 06283d5f6761704fe4a74503e32113c5af67588c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:02 +0000
Subject: [PATCH 104/118] fix: isWSL did not know the second version of WSL

---
 packages/os/src/platform.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/os/src/platform.ts b/packages/os/src/platform.ts
index c70bc98..60f4d3f 100644
--- a/packages/os/src/platform.ts
+++ b/packages/os/src/platform.ts
@@ -12,4 +12,4 @@ export const isMacOS = osType === 'Darwin';
 export const isLinux = osType === 'Linux';
 
 /** 是不是 `Windows` 系统平台上的 `Linux` 子系统 */
-export const isWSL = isLinux && release().endsWith('Microsoft');
+export const isWSL = isLinux && /microsoft/i.test(release());
-- 
2.43.0


From cd5506f0a1541847fce600ab40fcba98f994fd78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:05 +0000
Subject: [PATCH 105/118] fix: destPath left the target folder for files that
 are not in the source folder

---
 packages/fs/src/destPath.ts | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/packages/fs/src/destPath.ts b/packages/fs/src/destPath.ts
index 631905a..58ec412 100644
--- a/packages/fs/src/destPath.ts
+++ b/packages/fs/src/destPath.ts
@@ -1,5 +1,5 @@
 import { promises } from 'fs';
-import { dirname, isAbsolute, join, normalize, relative } from 'path';
+import { dirname, isAbsolute, join, normalize, relative, sep } from 'path';
 
 import { format } from '@curong/term';
 import { isStringFilled } from '@curong/types';
@@ -9,6 +9,17 @@ import mkdir from './mkdir';
 import readLnk from './readLnk';
 import type { DestPathOptions } from './types';
 
+/** 是不是文件夹本身或者文件夹中的路径 */
+function isInside(dir: string, path: string): boolean {
+    const resolved = relative(dir, path);
+
+    return (
+        resolved !== '..' &&
+        !resolved.startsWith(`..${sep}`) &&
+        !isAbsolute(resolved)
+    );
+}
+
 /**
  * 获取目标路径和目标文件夹
  *
@@ -55,7 +66,7 @@ export default async function destPath(
     let destPath = '';
 
     // 有可能是通过系统的快捷方式访问的软连接和或硬链接
-    if (!filePath.includes(srcDir)) {
+    if (!isInside(srcDir, filePath)) {
         // 重新读取该文件夹下的文件或目录，并且遍历它
         const pathList: string[] = await promises.readdir(srcDir);
 
@@ -66,7 +77,7 @@ export default async function destPath(
 
             // 解析路径
             const targetPath = await readLnk(join(srcDir, p)).catch(() => null);
-            if (!targetPath) continue;
+            if (!targetPath || !isInside(targetPath, filePath)) continue;
 
             // 目标文件夹 + 当前快捷方式的名字 + 相对路径 = 最终的路径(包含文件名和后缀)
             return join(
@@ -80,15 +91,12 @@ export default async function destPath(
     }
 
     // 拼接相对路径，如果拼接失败则会返回绝对路径(filePath)
-    const resolvePath = relative(srcDir, filePath);
-
-    // 如果是绝对路径
-    if (isAbsolute(resolvePath)) {
+    if (!isInside(srcDir, filePath)) {
         return Promise.resolve(filePath);
     }
 
     // 拿到相对路径然后做拼接
-    destPath = join(desDir, resolvePath);
+    destPath = join(desDir, relative(srcDir, filePath));
 
     if (isMakeDir) {
         const destDir = dirname(destPath);
-- 
2.43.0


From 69ebb3202324b8100907c2fe38479286f94f98e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:04 +0000
Subject: [PATCH 106/118] fix: queryDNS gave an empty address for hosts that
 are not found

---
 packages/request/src/dns/queryDNS.ts | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/packages/request/src/dns/queryDNS.ts b/packages/request/src/dns/queryDNS.ts
index 9ea08fe..e277510 100644
--- a/packages/request/src/dns/queryDNS.ts
+++ b/packages/request/src/dns/queryDNS.ts
@@ -1,4 +1,10 @@
-import { isEqual, isNull, isString, isZero } from '@curong/types';
+import {
+    isEqual,
+    isNull,
+    isString,
+    isStringFilled,
+    isZero
+} from '@curong/types';
 
 import { request } from '../request';
 import type { RequestOptions } from '../types';
@@ -48,7 +54,10 @@ export default async function queryDNS(
         const ret = await request(requestOptions);
 
         if (isNull(ret.error) && isEqual(ret.response.statusCode, 200)) {
-            address[host].push(...ret.data.toString().split(/;/));
+            // 没有结果时响应体为空
+            address[host].push(
+                ...ret.data.toString().split(/;/).filter(isStringFilled)
+            );
         }
     }
 
-- 
2.43.0


From 40c19a62b4a18e709d4f7f8038b9fa0153f34c27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:22 +0000
Subject: [PATCH 107/118] fix: publicIP ran the code a remote host answered
 with

---
 packages/request/src/ip/publicIP.ts | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/packages/request/src/ip/publicIP.ts b/packages/request/src/ip/publicIP.ts
index caa2944..e874809 100644
--- a/packages/request/src/ip/publicIP.ts
+++ b/packages/request/src/ip/publicIP.ts
@@ -1,16 +1,24 @@
 import { TextDecoder } from 'util';
 
 import { format } from '@curong/term';
-import { isNotEqual, isNull } from '@curong/types';
+import { isNotEqual, isNull, isObject } from '@curong/types';
 
 import { request } from '../request';
 import type { publicIpResult } from './types';
 
+/** 解析 `JSON` 字符串，如果解析失败则返回 `null` */
+function parse(value: string = ''): any {
+    try {
+        return JSON.parse(value);
+    } catch {
+        return null;
+    }
+}
+
 /**
  * 获取本地公共的 `IP` 地址和城市信息
  *
  * @returns 返回获取到的公共 `IP` 地址和城市信息对象
- * @note 该方法使用了 `new Function`，如果用户禁用了 [eval](https://developer.mozilla.org/en-US/docs/Web/JavaScript/Reference/Global_Objects/eval)，则导致代码异常
  * @throws
  * - 如果请求失败，则会抛出异常
  * - 如果响应的数据格式不正确，则会抛出异常
@@ -39,7 +47,11 @@ export default async function publicIP(): Promise<publicIpResult> {
 
     const data = new TextDecoder('gbk').decode(ret.data);
 
-    if (!data.startsWith('var returnCitySN = {')) {
+    // 响应体是一段脚本，只读取其中的 `JSON` 对象，不执行远程的代码
+    const [, json] = data.match(/^var returnCitySN = (\{.*\});?\s*$/s) ?? [];
+    const citySN = parse(json);
+
+    if (!isObject(citySN)) {
         throw format({
             name: 'publicIP',
             message: '从远程获取到的数据的格式不正确',
@@ -47,8 +59,7 @@ export default async function publicIP(): Promise<publicIpResult> {
         });
     }
 
-    const citySN = new Function(`${data}; return returnCitySN ?? {};`);
-    const { cip: ip, cid: id, cname: name } = citySN();
+    const { cip: ip, cid: id, cname: name } = citySN as Record<string, any>;
 
     return { ip, city: { id, name } };
 }
-- 
2.43.0


From f6fda5949d1806c64abbd9af6ac411c2f14cefdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:01 +0000
Subject: [PATCH 108/118] fix: parallel replaced errors with read-only messages
 by a type error

---
 packages/function/src/control/parallel.ts | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/packages/function/src/control/parallel.ts b/packages/function/src/control/parallel.ts
index 4c077b7..a96533a 100644
--- a/packages/function/src/control/parallel.ts
+++ b/packages/function/src/control/parallel.ts
@@ -50,8 +50,13 @@ export default async function parallel<T>(
             return await toPromise(task);
         } catch (e: any) {
             if (isAnyError(e)) {
-                e.message = `[parallel] 执行第 ${i} 个任务时出错: ${e.message}`;
-                e.cause = { index: i, tasks, options };
+                // 有些错误的属性是只读的 (如 `DOMException`)，赋值失败时应保留原来的错误
+                Reflect.set(
+                    e,
+                    'message',
+                    `[parallel] 执行第 ${i} 个任务时出错: ${e.message}`
+                );
+                Reflect.set(e, 'cause', { index: i, tasks, options });
             }
             throw e;
         }
-- 
2.43.0


From bfcf9466c891931d4b8acb170404916c28c3ed4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:29 +0000
Subject: [PATCH 109/118] fix: fromCascadeKeys wrote quoted keys with
 backslashes and line breaks unescaped

---
 packages/object/src/cascade/fromCascadeKeys.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/object/src/cascade/fromCascadeKeys.ts b/packages/object/src/cascade/fromCascadeKeys.ts
index 367dedb..dbbeba7 100644
--- a/packages/object/src/cascade/fromCascadeKeys.ts
+++ b/packages/object/src/cascade/fromCascadeKeys.ts
@@ -19,7 +19,7 @@ const addPack = (
         return isAppendWen ? `${optionalChar}.${key}` : `.${key}`;
     }
 
-    if (/^('[^']+'|"[^"]+")$/.test(key)) {
+    if (/^('[^'\\\n\r]+'|"[^"\\\n\r]+")$/.test(key)) {
         return `[${key}]`;
     }
 
-- 
2.43.0


From 3c2245437619209d3f1d3c417b1db28c2b5da113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:41 +0000
Subject: [PATCH 110/118] fix: toObject lost entries with the key __proto__

---
 packages/array/src/convert/toObject.ts | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/packages/array/src/convert/toObject.ts b/packages/array/src/convert/toObject.ts
index 1b20eb4..1ed8f0a 100644
--- a/packages/array/src/convert/toObject.ts
+++ b/packages/array/src/convert/toObject.ts
@@ -30,7 +30,13 @@ export default function toObject<T, U>(
     const result: Record<string, U> = {};
 
     for (const value of array) {
-        result[makeKey(value)] = makeValue(value);
+        // 直接赋值会将 `__proto__` 当作原型来处理
+        Object.defineProperty(result, makeKey(value), {
+            value: makeValue(value),
+            writable: true,
+            enumerable: true,
+            configurable: true
+        });
     }
 
     return result;
-- 
2.43.0


From db2136a4587643aedc4216b0d6e1cd41f1f85bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:38 +0000
Subject: [PATCH 111/118] fix: cookies with the name __proto__ were lost or
 became a prototype

---
 packages/cookie/src/cookie/parse.ts    | 17 +++++++++++++++--
 packages/cookie/src/setCookie/parse.ts |  8 +++++++-
 2 files changed, 22 insertions(+), 3 deletions(-)

diff --git a/packages/cookie/src/cookie/parse.ts b/packages/cookie/src/cookie/parse.ts
index be941f5..397936f 100644
--- a/packages/cookie/src/cookie/parse.ts
+++ b/packages/cookie/src/cookie/parse.ts
@@ -2,6 +2,19 @@ import { isFunctionFilled, isString, isStringFilled } from '@curong/types';
 
 import type { ParseCookieOptions } from './types';
 
+// 直接赋值会将名称 `__proto__` 当作原型来处理
+const setValue = (
+    result: { [key: string]: string },
+    key: string,
+    value: string
+) =>
+    Object.defineProperty(result, key, {
+        value: value,
+        writable: true,
+        enumerable: true,
+        configurable: true
+    });
+
 /**
  * 解码一个值
  *
@@ -99,11 +112,11 @@ export default function parseCookie(
 
         if (isString(key)) {
             if (isString(value)) {
-                result[key] = value;
+                setValue(result, key, value);
                 key = null;
                 value = null;
             } else if (i === len - 1) {
-                result[key] = getDecode(cookie.slice(star), decode);
+                setValue(result, key, getDecode(cookie.slice(star), decode));
             }
         }
     }
diff --git a/packages/cookie/src/setCookie/parse.ts b/packages/cookie/src/setCookie/parse.ts
index ae5ec89..e3c3781 100644
--- a/packages/cookie/src/setCookie/parse.ts
+++ b/packages/cookie/src/setCookie/parse.ts
@@ -177,7 +177,13 @@ export default function parseSetCookie(
     return cookies.reduce(
         (cookie, str) => {
             const v = parseChunk(str, decode);
-            cookie[v.name] = v;
+            // 直接赋值会将名称 `__proto__` 当作原型来处理
+            Object.defineProperty(cookie, v.name, {
+                value: v,
+                writable: true,
+                enumerable: true,
+                configurable: true
+            });
             return cookie;
         },
         {} as Record<string, SetCookieItem>
-- 
2.43.0


From 1ac5dd24f7aca50e676fbfccaf1aa41d87414310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:38 +0000
Subject: [PATCH 112/118] fix: an attribute called name or value replaced the
 name or value of the cookie

---
 packages/cookie/src/setCookie/parse.ts | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/packages/cookie/src/setCookie/parse.ts b/packages/cookie/src/setCookie/parse.ts
index e3c3781..0ff4cd3 100644
--- a/packages/cookie/src/setCookie/parse.ts
+++ b/packages/cookie/src/setCookie/parse.ts
@@ -37,6 +37,11 @@ const setCookieValue = (cookie: SetCookieItem, key: string, value: string) => {
             cookie.sameSite = value;
             break;
 
+        // 属性不能覆盖 `cookie` 自身的名称和值
+        case 'name':
+        case 'value':
+            break;
+
         default:
             cookie[key] = value;
             break;
-- 
2.43.0


From c5dd6ed5cd956d23f0262a5ced15a04d97b8935f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:39 +0000
Subject: [PATCH 113/118] fix: toLowerCaseKey made the value of a key __proto__
 the prototype

---
 packages/object/src/keys/toLowerCaseKey.ts | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/packages/object/src/keys/toLowerCaseKey.ts b/packages/object/src/keys/toLowerCaseKey.ts
index d7b399e..cf05846 100644
--- a/packages/object/src/keys/toLowerCaseKey.ts
+++ b/packages/object/src/keys/toLowerCaseKey.ts
@@ -27,6 +27,15 @@ export default function toLowerCaseKey(
 ): ObjectType {
     const set = new Set();
 
+    // 直接赋值会将名称 `__proto__` 当作原型来处理
+    const setValue = (memo: ObjectType, key: string, value: any) =>
+        Object.defineProperty(memo, key, {
+            value: value,
+            writable: true,
+            enumerable: true,
+            configurable: true
+        });
+
     return Reflect.ownKeys(object).reduce((memo, key) => {
         const value = object[key];
 
@@ -39,9 +48,9 @@ export default function toLowerCaseKey(
         key = key.toLocaleLowerCase();
 
         if (isCover) {
-            memo[key] = value;
+            setValue(memo, key, value);
         } else if (!set.has(key)) {
-            memo[key] = value;
+            setValue(memo, key, value);
             set.add(key);
         }
 
-- 
2.43.0


From 66506b488e5527e6fd28bd65a82d1cee92ea7fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:39 +0000
Subject: [PATCH 114/118] fix: stringify of objects lost the key __proto__

---
 packages/object/src/stringify.ts | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/packages/object/src/stringify.ts b/packages/object/src/stringify.ts
index 22fc5b0..5461936 100644
--- a/packages/object/src/stringify.ts
+++ b/packages/object/src/stringify.ts
@@ -53,7 +53,13 @@ const safeStringifyReplacer = (
 
             for (let i = 0, k, len = keys.length; i < len; i++) {
                 k = keys[i];
-                newValue[k] = internal(value[k], path.concat(k));
+                // 直接赋值会将名称 `__proto__` 当作原型来处理
+                Object.defineProperty(newValue, k, {
+                    value: internal(value[k], path.concat(k)),
+                    writable: true,
+                    enumerable: true,
+                    configurable: true
+                });
             }
         }
 
-- 
2.43.0


From 84f65035363d29ed5b1ddd11bd92d4abc91a2538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:39 +0000
Subject: [PATCH 115/118] fix: copyAttrs made the value of a key __proto__ the
 prototype of the target

---
 packages/util/src/copyAttrs.ts | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/packages/util/src/copyAttrs.ts b/packages/util/src/copyAttrs.ts
index 1560be0..1fe5786 100644
--- a/packages/util/src/copyAttrs.ts
+++ b/packages/util/src/copyAttrs.ts
@@ -35,7 +35,18 @@ export default function copyAttrs(
     const attrs = allAttrs(src);
 
     return (lacked ? lackAttrs(dest, attrs) : attrs).reduce((memo, key) => {
-        memo[key] = copy(src[key]);
+        if (key === '__proto__') {
+            // 直接赋值会更改目标的原型
+            Object.defineProperty(memo, key, {
+                value: copy(src[key]),
+                writable: true,
+                enumerable: true,
+                configurable: true
+            });
+        } else {
+            memo[key] = copy(src[key]);
+        }
+
         return memo;
     }, dest);
 }
-- 
2.43.0


From ccc23b9c73364027de9e3c41db7bcfc26731e39c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:23 +0000
Subject: [PATCH 116/118] fix: timeoutLog dropped the time of day of whole days
 with milliseconds

---
 packages/function/src/timeout/timeoutLog.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/function/src/timeout/timeoutLog.ts b/packages/function/src/timeout/timeoutLog.ts
index c3f7fcc..7da25b8 100644
--- a/packages/function/src/timeout/timeoutLog.ts
+++ b/packages/function/src/timeout/timeoutLog.ts
@@ -39,7 +39,7 @@ export default function timeoutLog(
         } else {
             formatString =
                 `${date.getDate() - 1}天 ${hours}:${minutes}:${seconds}${millisecond}`.replace(
-                    ' 00:00:00',
+                    / 00:00:00$/,
                     ''
                 );
         }
-- 
2.43.0


From f200b9bf98c00ece8dd32b67d3c43fd0bd3b47c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:44 +0000
Subject: [PATCH 117/118] fix: a class derived from a singleton class gave the
 instance of its parent

---
 packages/function/src/class/singletonClass.ts | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/packages/function/src/class/singletonClass.ts b/packages/function/src/class/singletonClass.ts
index a83fc6f..248a5c6 100644
--- a/packages/function/src/class/singletonClass.ts
+++ b/packages/function/src/class/singletonClass.ts
@@ -1,4 +1,4 @@
-import type { Class } from '@curong/types';
+import { hasOwnProperty, type Class } from '@curong/types';
 
 const CLASS_SINGLETON_KEY = Symbol.for('[[SINGLETON]]');
 
@@ -36,7 +36,8 @@ export default function singletonClass<T extends Class>(classTarget: T) {
                 return Reflect.construct(target, argumentsList, newTarget);
             }
 
-            if (!target[CLASS_SINGLETON_KEY]) {
+            // 不能使用从父类中继承的实例
+            if (!hasOwnProperty(target, CLASS_SINGLETON_KEY)) {
                 target[CLASS_SINGLETON_KEY] = Reflect.construct(
                     target,
                     argumentsList,
-- 
2.43.0


From a0b0ab3bf9604ecfdb21cebbe41dd34cd29be16c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:44 +0000
Subject: [PATCH 118/118] fix: toggle never left a default value of NaN

---
 packages/function/src/select/toggle.ts | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/packages/function/src/select/toggle.ts b/packages/function/src/select/toggle.ts
index 9f6327a..a94f9f7 100644
--- a/packages/function/src/select/toggle.ts
+++ b/packages/function/src/select/toggle.ts
@@ -38,7 +38,10 @@ export default function toggle<L, R>(
 
         /** 切换当前值 */
         toggle() {
-            value = value === defaultValue ? reverseValue : defaultValue;
+            // 全等运算符不能判断 `NaN`
+            value = Object.is(value, defaultValue)
+                ? reverseValue
+                : defaultValue;
             return value;
         },
 
-- 
2.43.0

