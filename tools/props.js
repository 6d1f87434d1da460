'use strict';
// One entry per property. files are relative to /repo/packages, mech is
// [what, where]; over defaults to inputs.
module.exports = [
    {
        id: 'A01', title: 'Moving an array element reorders the array and does nothing else',
        st: 'For every array and every pair of positions, negative ones counting from the end, moving an element puts it exactly at the target position of the same array and keeps all other elements in their order. A position outside the array is refused with a range error and the array stays as it was.',
        q: 'every array, every pair of integer positions', files: ['array/src/move.ts'], mech: [['index normalisation and double splice', 'array/src/move.ts']],
        why: 'Tests move a handful of elements; off-by-one errors show only for particular combinations of length, source, target and sign.'
    },
    {
        id: 'A02', title: 'Splitting an array keeps every element once, in order, in right-sized parts',
        st: 'Splitting an array by step length or into a number of parts returns consecutive parts that together contain every element exactly once and in order, and leaves the input alone. Step splitting gives parts of the step size with a shorter last part; part splitting gives the requested number of parts when the length divides or a pad position is named, the surplus spread one each over the first or the last parts, and otherwise parts of the rounded-down size. Sizes below one and unknown pad positions are refused with a type error.',
        q: 'every array length and every integer size, all pad positions', files: ['array/src/splitByStep.ts', 'array/src/splitChunk.ts'], mech: [['slice arithmetic', 'array/src/splitChunk.ts'], ['step loop', 'array/src/splitByStep.ts']],
        why: 'Sizes and remainders interact; tests cover four sizes of one array.'
    },
    {
        id: 'A03', title: 'Integer ranges start, step and end exactly where they should',
        st: 'For integer bounds and step, a generated range starts at the first bound, advances by exactly the step and ends at the last step that does not pass the second bound. A zero step, or a step pointing away from the end, is refused with a type error.',
        q: 'every integer start, end and step', files: ['array/src/range.ts'], mech: [['length computation', 'array/src/range.ts']],
        why: 'Only five concrete ranges are tested; fence-post errors depend on divisibility and sign.'
    },
    {
        id: 'A04', title: 'Shuffling and picking use every element fairly and only once',
        st: 'Whatever the random source returns, shuffling produces a new array with exactly the same elements and leaves the input unchanged, and picking returns an element of the array. Every ordering of a small array, and every element, can come out for some outcome of the random source.',
        q: 'every array up to the bound and every sequence of random draws', over: ['inputs', 'schedules'], files: ['array/src/shuffle.ts', 'array/src/random.ts'], mech: [['Fisher-Yates exchange', 'array/src/shuffle.ts'], ['scaled random index', 'array/src/random.ts']],
        why: 'Tests see a few draws of a real random source and cannot show that no draw loses an element or that an ordering is unreachable.'
    },
    {
        id: 'A05', title: 'A list of parent references becomes a tree with every rooted item placed once',
        st: 'Building a tree from items that name their parents places every item whose chain of parents ends at a root exactly once, under its own parent, siblings in input order, whatever order parents and children come in and whatever texts or numbers the ids are. Items in cycles or with missing parents are left out, or make the call fail when that is requested, and the call fails for no other reason. Item data is kept unchanged in the chosen container field or merged into the node.',
        q: 'every order of items, every parent assignment, every id text', files: ['array/src/convert/toTree.ts'], mech: [['lookup table of preliminary nodes', 'array/src/convert/toTree.ts'], ['orphan and cycle detection', 'array/src/convert/toTree.ts']],
        why: 'The order of items, the shape of the forest and the ids combine; tests use a dozen fixed lists.'
    },
    {
        id: 'A06', title: 'Sorting words and comparing line lengths give a correct order',
        st: 'Sorting words by all letters or by first letter returns the same words in ascending, or on request descending, code-unit order. Ordering lines by length lists every line index once, shortest first with ties in input order, and the longest or shortest line found is the first one of that length, with no answer for an empty list.',
        q: 'every list of strings up to the bound', files: ['array/src/sort/sortByEng.ts', 'array/src/sort/sortByEngInitials.ts', 'array/src/sort/sortToIndexes.ts', 'array/src/maxLengthIndex.ts', 'array/src/minLengthIndex.ts'], mech: [['comparators', 'array/src/sort'], ['running extreme', 'array/src/maxLengthIndex.ts']],
        why: 'Comparator mistakes show only on ties, prefixes or particular input orders.'
    },
    {
        id: 'A07', title: 'Duplicate detection and removal agree with value equality',
        st: 'A list counts as unique exactly when no two elements are the same value, where NaN equals itself. Removing duplicates from values and arrays of values keeps the first occurrence of every distinct value, in order, and nothing else.',
        q: 'every list of primitive values up to the bound, doubles included', files: ['array/src/isUnique.ts', 'array/src/uniqueFromPrimitive.ts'], mech: [['set membership', 'array/src/isUnique.ts']],
        why: 'Equality of values is a relation over all pairs; tests use fixed lists.'
    },
    {
        id: 'C01', title: 'Cookies written by the library read back unchanged',
        st: 'Writing cookies with the default encoding and reading the joined request header back with URL decoding returns the same names and values. Reading splits every segment at its first equals sign, trims blanks and surrounding quotes, ignores segments without an equals sign and lets later duplicates win. A written cookie carries exactly the attributes that were given, and illegal characters in a name or encoded value are refused.',
        q: 'every header text, every token name and value up to the bound, every attribute combination', files: ['cookie/src/cookie/create.ts', 'cookie/src/cookie/parse.ts'], mech: [['character scan with first-equals rule', 'cookie/src/cookie/parse.ts'], ['attribute writers and character filter', 'cookie/src/cookie/create.ts']],
        why: 'The scan is driven by every position of separators in the text; tests use seven headers.'
    },
    {
        id: 'C02', title: 'Combined set-cookie headers are split and parsed without loss',
        st: 'Several set-cookie texts joined by commas, with or without blanks, are split back into the same texts even when attribute dates contain commas. Parsing each text yields its name, its decoded value and every attribute, whatever the letter case of attribute names and with valueless flags accepted, either as a list or stored under the cookie name. Joining parsed cookies lists name=value pairs in order.',
        q: 'every combination of names, values and attributes up to the bound', files: ['cookie/src/setCookie/split.ts', 'cookie/src/setCookie/parse.ts', 'cookie/src/setCookie/join.ts'], mech: [['look-ahead for name= after a comma', 'cookie/src/setCookie/split.ts'], ['attribute table', 'cookie/src/setCookie/parse.ts']],
        why: 'Whether a comma separates cookies depends on everything after it; one header is tested.'
    },
    {
        id: 'A08', title: 'Array traversals visit every element once, in order, until told to stop',
        st: 'Traversing or mapping an array calls the callback once per element, from the front or from the back, with the element, its index and the array. Synchronous and serial traversals stop at the first strict true or failure, serial ones never run two callbacks at once, parallel ones start all callbacks at once and wait for all. Mapped results come in visiting order whatever finishes first, and a failure of a callback is passed on.',
        q: 'every array up to the bound, every callback outcome, every order of completion', over: ['inputs', 'schedules'], files: ['array/src/each', 'array/src/map'], mech: [['strict comparison with true ends the loop', 'array/src/each'], ['collecting promises in visiting order', 'array/src/map']],
        why: 'Order of completion, position of the stopping element and failures combine; tests run a few fixed timings.'
    },
    {
        id: 'A09', title: 'Flattening and nesting measures agree with the actual nesting',
        st: 'Flattening a nested array yields exactly its leaves, left to right. The dimension level, the multi-dimensional test and the recursion depth agree with the nesting that is really there, for ragged and empty arrays as well.',
        q: 'every nested array up to the bound', files: ['array/src/flat.ts', 'array/src/dimension', 'array/src/maxRecursionDepth.ts'], mech: [['recursive descent', 'array/src/flat.ts'], ['depth comparison', 'array/src/maxRecursionDepth.ts']],
        why: 'Ragged shapes and empty inner arrays combine; tests use a handful of shapes.'
    },
    {
        id: 'F01', title: 'Retrying runs a task until it succeeds, is called off or runs out of retries',
        st: 'A retried task runs at most once more than the number of retries and stops at its first success, whose value is the result. Before every further retry the retry callback sees the latest failure and its number and can call the rest off, and the wait asked for passes between attempts. When all attempts failed, the error callback gets the last failure and its value is the result; without one the call fails with an aggregate of every failure in order.',
        q: 'every sequence of attempt outcomes and callback answers, every wait', over: ['inputs', 'schedules', 'histories'], files: ['function/src/catch/retry.ts'], mech: [['retry loop with collected failures', 'function/src/catch/retry.ts'], ['wait between attempts', 'function/src/timeout/timeoutMsResolve.ts']],
        why: 'Outcomes of attempts, answers of callbacks and waits multiply; tests run a few sequences in real time.'
    },
    {
        id: 'F02', title: 'Running tasks in parallel respects the limit and returns results in order',
        st: 'Running a list of tasks with limited concurrency starts every task exactly once and in order, never has more unfinished than the limit and never leaves a free slot idle. The results come in task order whatever finishes first. Failures, with or without retries, go to the error callback with the index of the task and its answer takes the place of the result; without a callback the whole run fails.',
        q: 'every number of tasks, limit, outcome and duration of each task', over: ['inputs', 'schedules'], files: ['function/src/control/parallel.ts'], mech: [['slots shared between running tasks', 'function/src/control/parallel.ts']],
        why: 'Correctness depends on the interleaving of completions; tests use one or two timings.'
    },
    {
        id: 'F03', title: 'Memoised functions compute once per key and never return stale values',
        st: 'A memoised function computes at most once per key until the time limit passes, the key is deleted or the cache is cleared, and every call returns the value computed for exactly its own key. With a time limit no value older than the limit is returned. Failures are not remembered. The asynchronous form shares a computation that is under way between callers.',
        q: 'every history of calls, pauses, deletions and clearings up to the bound, every pair of keys, every limit', over: ['inputs', 'histories', 'schedules'], files: ['function/src/cache/memoizeWith.ts', 'function/src/cache/memoizeWithAsync.ts'], mech: [['map from key to value with expiry', 'function/src/cache/memoizeWith.ts'], ['shared pending promise', 'function/src/cache/memoizeWithAsync.ts']],
        why: 'Staleness is a property of histories with arbitrary pauses; tests make a few calls.'
    },
    {
        id: 'F04', title: 'Call counters let a function run exactly as often as they promise',
        st: 'A run-once function runs its body exactly once and keeps returning that result. Of a function limited to run after, or only, a number of times exactly the later, or the first, calls run, with the arguments given, even when some of them fail. Counts that are not whole numbers of the permitted size are refused.',
        q: 'every count, every sequence of calls up to the bound and every failing call', over: ['inputs', 'histories'], files: ['function/src/limit/once.ts', 'function/src/limit/runAfterTimes.ts', 'function/src/limit/runOnlyNTimes.ts'], mech: [['call counters', 'function/src/limit']],
        why: 'The boundary call and failures of earlier calls matter; tests count to three.'
    },
    {
        id: 'F05', title: 'Collecting promises in batches neither loses nor repeats an item',
        st: 'A collector of promises closes a batch when the agreed number was submitted or the flag says so, and answers with the results of exactly that batch in order of submission, or of all batches so far when accumulating. Without restarting, later submissions are ignored. Submissions made while a closed batch is still pending belong to the next batch. Invalid totals are refused.',
        q: 'every number and spacing of submissions, every duration of each promise', over: ['inputs', 'schedules', 'histories'], files: ['function/src/control/collectItems.ts'], mech: [['batch buffer closed before waiting', 'function/src/control/collectItems.ts']],
        why: 'Items are lost only when submissions overlap a pending batch; tests submit in a fixed rhythm.'
    },
    {
        id: 'F06', title: 'Delays and timeouts last as long as asked and fire exactly once',
        st: 'A duration given as number, numeric text, function, list or range resolves to a value of it, and every permitted value can come out; durations that are not finite numbers, or are invalid in form, are refused. Delays end after exactly that time. A task with a time limit yields its own outcome when it is in time and the fallback otherwise, never both, and no timer stays behind.',
        q: 'every duration form and value up to the bound, every task duration and outcome', over: ['inputs', 'schedules'], files: ['function/src/timeout/timeoutMsResolve.ts', 'function/src/timeout/timeoutOr.ts', 'function/src/timeout/setTimeout.ts', 'function/src/delay'], mech: [['evaluation of duration forms', 'function/src/timeout/timeoutMsResolve.ts'], ['race of task and timer', 'function/src/timeout/timeoutOr.ts']],
        why: 'Which of two timers fires first, and edge values of random ranges, are not what a test samples.',
        note: 'Bounded. Two known findings: the lowest value of a random range is never produced (see known-findings.txt).'
    },
    {
        id: 'F07', title: 'Function combinators pass arguments, results and failures through unchanged',
        st: 'Composing, currying, binding, toggling, selecting, wrapping before or after and making classes singletons call the given functions in the documented order with exactly the documented arguments, and return the documented result; failures of a wrapped function come out as documented and are never swallowed silently. Currying gives the same result however the arguments are spread over calls. Cancelling makes the pending call fail, and an uncancelled one finishes normally.',
        q: 'every argument value, every split of arguments over calls, every outcome and timing', over: ['inputs', 'schedules'], files: ['function/src/chain', 'function/src/currying.ts', 'function/src/bind.ts', 'function/src/select', 'function/src/class/singletonClass.ts', 'function/src/control/cancelExec.ts', 'function/src/control/deferred.ts', 'function/src/control/padding.ts', 'function/src/catch', 'function/src/promise'], mech: [['argument forwarding', 'function/src/chain'], ['argument collection', 'function/src/currying.ts'], ['abort listener', 'function/src/control/cancelExec.ts']],
        why: 'Argument forwarding errors show only for particular numbers of arguments and outcomes.'
    },
    {
        id: 'F08', title: 'Next-tick callbacks run once each, in order, even when one of them fails',
        st: 'In every environment the function supports, each scheduled callback runs exactly once, after the current code and in order of scheduling, whatever other callbacks throw or schedule.',
        q: 'every number of callbacks up to the bound, every subset that throws or schedules more', over: ['inputs', 'schedules'], files: ['function/src/timeout/nextTick.ts'], mech: [['choice of scheduler and callback queue', 'function/src/timeout/nextTick.ts']],
        why: 'Fallback schedulers are never exercised by tests on Node, nor are failing callbacks.'
    },
    {
        id: 'N01', title: 'Amounts in words say exactly the amount',
        st: 'Writing a decimal amount in capital Chinese numerals says exactly that amount: every non-zero digit with its unit and place, zeros between digits as one zero character, fraction units from the tenth on, the closing character exactly when the amount ends at whole units or tenths, and the chosen prefix and minus sign. Amounts beyond fourteen integer digits or four decimals, and texts that are not decimal numbers, are refused with a type error.',
        q: 'every decimal amount within the digit limits', files: ['number/src/amount/amountInWords.ts'], mech: [['four-digit sections with zero tracking', 'number/src/amount/amountInWords.ts'], ['fraction digits', 'number/src/amount/amountInWords.ts']],
        why: 'Zero rules depend on the pattern of zeros in up to eighteen digits; tests use a dozen amounts.'
    },
    {
        id: 'N02', title: 'Number conversions and range tests agree with arithmetic',
        st: 'A number lies in a range exactly when it is between the two bounds, inclusive and in either order, or between zero and a single bound; anything but numbers is refused with a type error. Conversion to an integer gives the largest integer that is not larger, for numbers and numeric texts, and refuses blank or non-finite input. Conversion to a finite number gives the number or the default. The text of a number reads back as the same number, minus zero included.',
        q: 'every double, every short text', files: ['number/src/inRange.ts', 'number/src/toInt.ts', 'number/src/toFiniteNumber.ts', 'number/src/stringify.ts'], mech: [['validation before comparison', 'number/src/inRange.ts'], ['rounding down', 'number/src/toInt.ts']],
        why: 'Signed zero, NaN, infinities and rounding affect single values among 2^64.'
    },
    {
        id: 'N03', title: 'Random numbers stay in range and every value can come out',
        st: 'Whatever the random source delivers, random numbers, ordinary and cryptographic, are at least zero and below one, and random integers between two safe integers, smaller one first, lie between them inclusive. Every integer of a small range can come out. Bounds that are not safe integers are refused with a type error.',
        q: 'every outcome of the random source, every pair of bounds up to the bound', over: ['inputs', 'schedules'], files: ['number/src/random.ts', 'number/src/randomSafe.ts', 'number/src/range.ts', 'number/src/rangeSafe.ts'], mech: [['scaling and flooring', 'number/src/range.ts'], ['word to fraction', 'number/src/randomSafe.ts']],
        why: 'The extreme draw has a probability of 2^-32 or less; no test sees it.'
    },
    {
        id: 'N04', title: 'Grouping digits inserts delimiters at exact positions and changes nothing else',
        st: 'Formatting a decimal number with delimiters puts the delimiter text, taken literally, between groups of exactly the chosen size counted from the right of the integer part, and keeps sign, digits and decimals unchanged. What is not a finite number, and group sizes that are not positive integers, are refused with a type error.',
        q: 'every digit text up to the bound, every group size and delimiter', files: ['number/src/withDelimiter.ts'], mech: [['regular expression built from the group size', 'number/src/withDelimiter.ts']],
        why: 'Position depends on length modulo group size; delimiters can contain replacement patterns.'
    },
    {
            id: 'O01', title: 'Cascade paths round trip and name exactly the value they say',
            st: 'Writing a list of keys as a cascade path and reading it back gives the same keys, numbers as numbers. Every documented notation (plain names, quoted names, indexes, dependencies including 0, blanks inside brackets) reads as its key; unpaired brackets, empty names and unknown dependencies are refused. Following a path gives the value at exactly those keys; a missing path gives no value, and never fails when failures were switched off. The given list of keys is left alone.',
            q: 'every list of keys and every text up to the bounds', files: ['object/src/cascade/fromCascadeKeys.ts', 'object/src/cascade/toCascadeKeys.ts', 'object/src/cascade/cascade.ts'], mech: [['quoting of names', 'object/src/cascade/fromCascadeKeys.ts'], ['path scanner', 'object/src/cascade/toCascadeKeys.ts'], ['access', 'object/src/cascade/cascade.ts']],
            why: 'Quoting depends on single characters of the names; tests use a few ordinary names.'
        },
    {
            id: 'O02', title: 'Keys, values and lookups cover exactly the properties they document',
            st: 'Listing keys, values or pairs of an object covers exactly the own properties of the chosen level (visible, all named, symbols, all), in the engine\'s order, and other levels are refused with a type error. Testing for keys or values answers for any or for all of the queried ones, digit names given as numbers included. Reading a property or a path never fails on missing steps, reads own properties only when asked, and otherwise gives the value found. Constructors, their names and class membership come from the prototype.',
            q: 'every combination of visible, hidden, inherited and absent properties, all values', files: ['object/src/keys/keys.ts', 'object/src/keys/isKeysIncludes.ts', 'object/src/values', 'object/src/property', 'object/src/toArray.ts', 'object/src/constructor.ts', 'object/src/constructorName.ts', 'object/src/isInstanceOf.ts'], mech: [['table of key listings', 'object/src/keys/keys.ts'], ['guarded walk', 'object/src/values/getFromPaths.ts']],
            why: 'Tests use plain objects; hidden, inherited and digit-named properties are where the levels differ.'
        },
        {
            id: 'O03', title: 'Derived, reduced, sorted and lower-cased objects keep all else as it was',
            st: 'Deriving an object, also without some keys, copies its prototype and every other own property with value, getter and attributes, and leaves the source and the key list alone; deleting keys removes exactly these, on a copy where a property cannot be deleted. Sorting keys gives the same properties in ascending order of characters or of the given comparison, nested values untouched unless asked, shared and cyclic structures preserved, and refuses what is no plain object or list. Lower-casing names keeps the last, or when asked the first, of colliding ones.',
            q: 'every combination of property attributes and keys up to the bounds, all values', files: ['object/src/derive.ts', 'object/src/deleteAttrs.ts', 'object/src/createWithNull.ts', 'object/src/keys/sortKeys.ts', 'object/src/keys/toLowerCaseKey.ts'], mech: [['copy of descriptors', 'object/src/derive.ts'], ['deletion with fallback', 'object/src/deleteAttrs.ts'], ['map of visited values', 'object/src/keys/sortKeys.ts']],
            why: 'Attributes, getters and cycles multiply; the order depends on single characters.'
        },
        {
            id: 'O04', title: 'Shallow equality is sameness of the visible own properties',
            st: 'Two objects or lists are shallowly equal exactly when they are the same, or have the same visible own names with pairwise identical values, NaN equal to itself and the two zeros different; anything else only when identical. A given comparison decides instead, is asked at most once per pair, and receives the two values and the name.',
            q: 'every double, every short text, every combination of properties', files: ['object/src/shallowEqual.ts'], mech: [['count, presence and value comparison', 'object/src/shallowEqual.ts']],
            why: 'Signed zero, NaN and inherited names are single cases among all values.'
        },
        {
            id: 'O05', title: 'Object serialisation equals the standard one, plus cycles, order and key lists',
            st: 'Serialising a value without cycles gives the text JSON.stringify gives, with indents and replacers. A cycle is written as a marker with the path of the value it leads back to, or refused when asked; a value used twice without a cycle is written twice. A comparison orders the keys at every level without changing the source; a key list keeps exactly these keys, and all list items, at every level. Failures come out as a rejected promise.',
            q: 'every tree up to the bounds with all texts and integers, every cycle', files: ['object/src/stringify.ts'], mech: [['copy with a map of the values on the current path', 'object/src/stringify.ts'], ['replacer', 'object/src/stringify.ts']],
            why: 'Where a value is left again decides whether it is a cycle; tests use one cycle.'
        },
    {
        id: 'S01', title: 'Text bytes are UTF-8, and cutting by bytes never splits a character',
        st: 'The bytes and the byte length of a text are those of its UTF-8 encoding, lone surrogates as U+FFFD. Cutting a text at a number of bytes gives pieces that together are the text, none empty, none splitting a character, each as long as the limit allows. Reading the code point at a position gives the whole character there, and nothing outside the text.',
        q: 'every text of up to 4 arbitrary code units, every limit', files: ['string/src/bytes/bytesArray.ts', 'string/src/bytes/bytesLength.ts', 'string/src/bytes/splitByBytes.ts', 'string/src/character/codePointAt.ts'], mech: [['encoding by hand', 'string/src/bytes/bytesArray.ts'], ['byte count while cutting', 'string/src/bytes/splitByBytes.ts']],
        why: 'The byte count changes at single code points; tests use ASCII and common Chinese characters.'
    },
    {
        id: 'S02', title: 'HTML entities round trip and are decoded exactly once',
        st: 'Encoding a text writes every reserved character as its entity and decoding gives the text back. Decoding reads every listed name and number as its own character, in one pass from left to right: the result of one entity is never part of another, and everything that is no listed entity stays as it is.',
        q: 'every text up to the bounds over the reserved characters, every listed entity', files: ['string/src/character/htmlEntities.ts'], mech: [['table and patterns of entities', 'string/src/character/htmlEntities.ts']],
        why: 'Double decoding turns escaped text into markup; it needs an ampersand entity right before another name.'
    },
    {
        id: 'S03', title: 'A text turned into a pattern matches exactly itself, with every flag',
        st: 'A pattern made of a text finds exactly the places where the text stands, whatever special characters it contains, with every allowed flag (ignoring case with i). Flags that are not allowed are refused.',
        q: 'every character against every character; every text and place up to the bounds', files: ['string/src/regexp/toRegExpSource.ts', 'string/src/regexp/toRegExp.ts'], mech: [['escaping', 'string/src/regexp/toRegExpSource.ts']],
        why: 'One special character left unescaped is an injection into a pattern; with the u flag one escaped too much is an error.'
    },
    {
        id: 'S04', title: 'Trimming removes exactly the chosen kinds of blanks at the chosen places',
        st: 'Trimming at the start, the end, both or everywhere removes exactly the blanks of the kinds that are switched on and the extra characters, taken literally, and nothing else. A text is blank exactly when nothing remains. The functions for control, zero-width and space-like characters use the same characters; the length of leading blanks and tabs is their number.',
        q: 'every single character, every text up to the bounds, every combination of options', files: ['string/src/trim', 'string/src/spaces'], mech: [['character classes', 'string/src/trim/trimRegSource.ts'], ['patterns per kind', 'string/src/spaces']],
        why: 'There are over fifty kinds of blanks; leaving one out, or adding its neighbour, is invisible in ordinary texts.'
    },
    {
        id: 'S05', title: 'Finding pieces before, behind or at a position agrees with plain search',
        st: 'Finding any of several pieces before or behind a position answers exactly whether one of them stands there, with and without regard to case, the pieces taken literally. Start tests and cutting at a start answer for exactly that position and keep the rest of the text.',
        q: 'every text and pieces up to the bounds, every position', files: ['string/src/find', 'string/src/starts'], mech: [['slice before the search', 'string/src/find/frontOf.ts'], ['search with and without case', 'string/src/find/behindOf.ts'], ['start comparison', 'string/src/starts']],
        why: 'Off-by-one positions and special characters with ignored case show only in single combinations.'
    },
    {
        id: 'S06', title: 'Wrapping inside and outside of brackets respects pairs and escapes',
        st: 'The text inside of matching quotes and brackets, or the text outside of them, is handed to the wrapper piece by piece and nothing else is changed: nested and adjacent pairs belong together, escaped marks are no marks when asked, given marks replace the usual ones. The quote still open at the end of a text is found, as is the pair around a position.',
        q: 'every text up to the bounds over quotes, brackets, backslash and other characters', files: ['string/src/inside', 'string/src/quote'], mech: [['scanner', 'string/src/inside/bindInside.ts'], ['scanner', 'string/src/inside/bindOutside.ts'], ['backward scan', 'string/src/quote/quoteClosed.ts']],
        why: 'Nesting, adjacency and escapes combine; tests use one pair at a time.'
    },
    {
        id: 'S07', title: 'Splitting, matching and replacing by lists of patterns applies them in order',
        st: 'Splitting at a pattern gives the text before, the leftmost match and the text behind, which together are the text. Of several patterns the first one that matches decides. Several replacements are applied one after the other, each with the standard meaning of its pattern and its replacement. Setting blanks around matches adds them exactly next to characters that are neither blanks nor punctuation.',
        q: 'every text up to the bounds, every list of up to two (thorough three) patterns', files: ['string/src/match', 'string/src/multiReplace.ts', 'string/src/spaces/subSpaces.ts'], mech: [['loop over the patterns', 'string/src/match/matchOrder.ts'], ['loop over the replacements', 'string/src/multiReplace.ts'], ['callback with neighbours', 'string/src/spaces/subSpaces.ts']],
        why: 'Results depend on what an earlier pattern left behind and on groups, which shift callback arguments.'
    },
    {
        id: 'S08', title: 'Random letters, digits, colours and booleans stay in range and reach all of it',
        st: 'Random letters, colours and booleans are always one of the documented values, and each of these values is reached, with the ordinary and the secure source. A random digit text has exactly the asked length and consists of digits, also when it is longer than one secure draw allows.',
        q: 'every outcome of the random sources', over: ['inputs', 'schedules'], files: ['string/src/random'], mech: [['scaling and character table', 'string/src/random/randomLower.ts'], ['draws in parts', 'string/src/random/randomNumber.ts']],
        why: 'The extreme draw has a tiny probability; no test sees it.'
    },
    {
        id: 'S09', title: 'Words and sentences are cut at their ends, and nothing is lost',
        st: 'The word at a position is the longest run without blanks around it, with its start and end; without a word there is an empty result. The sentences of a text contain all of its characters but blanks in their order; sentences end at full stops, quotes and brackets behind these included, and nothing is repeated.',
        q: 'every text and position up to the bounds', files: ['string/src/words', 'string/src/sentences/toSentences.ts'], mech: [['scans to both sides', 'string/src/words/wordStart.ts'], ['sentence loop', 'string/src/sentences/toSentences.ts']],
        why: 'Texts that end, repeat or begin in unusual ways are not among the samples.'
    },
    {
        id: 'S10', title: 'Typesetting changes widths and blanks only, and settles at once',
        st: 'Full-width letters, digits and the listed signs become their half-width forms and no other character changes. Typesetting adds a blank exactly where Chinese characters meet letters or digits, loses no other character, and applied again changes nothing more.',
        q: 'every text of up to 3 arbitrary code units; every text of up to 3 characters over the typeset classes', files: ['string/src/corrector'], mech: [['table of full-width characters', 'string/src/corrector/basic'], ['patterns between scripts', 'string/src/corrector/basic']],
        why: 'Adjacent boundaries overlap; a pattern that consumes both neighbours misses every other one.'
    },
    {
        id: 'P01', title: 'Arguments of a spawned command reach the program unchanged',
        st: 'When a command is started through a POSIX shell or through cmd.exe, every argument reaches the program as exactly the text that was given, whatever it contains: blanks, quotes, backslashes, wildcards, variables, operators. Without a shell the arguments are passed on as they are. The caller\'s list is not changed.',
        q: 'every argument text up to the bounds', files: ['process/src/spawn.ts'], mech: [['quoting for shells', 'process/src/spawn.ts']],
        why: 'One unescaped metacharacter among 65536 runs a command of somebody else; tests try a few.'
    },
    {
        id: 'P02', title: 'Running a process settles once, with its status and all of its output',
        st: 'A spawned process settles exactly once: fulfilled when it ends, with exit status or signal and everything it wrote in order, split characters included, or rejected when it or its outputs fail. Outputs that are not read are null. exec joins its parts and passes options on; sleep ends after exactly the time asked for; opening a path uses the command of the platform.',
        q: 'every order of process events up to the bounds', over: ['inputs', 'schedules'], files: ['process/src/spawn.ts', 'process/src/exec.ts', 'process/src/sleep.ts'], mech: [['event listeners', 'process/src/spawn.ts'], ['timer', 'process/src/sleep.ts']],
        why: 'The order of output, end and failure is up to the system; tests see the usual one.'
    },
    {
        id: 'R01', title: 'Redirects are followed to the right place without leaking secrets',
        st: 'A redirect with a location is followed to exactly the place it names, relative to the current address, at most as often as allowed, with the handlers and options of the caller. Credentials, cookies and the host header are not sent to another host. POST turns into a GET without body after 301 and 302; otherwise method and body are kept. An invalid place rejects. The given options are not changed.',
        q: 'every status, place, header spelling and chain up to the bounds', over: ['inputs', 'histories'], files: ['request/src/request/request.ts', 'request/src/request/options.ts'], mech: [['redirect branch', 'request/src/request/request.ts']],
        why: 'Chains over hosts, schemes and ports multiply; the network tests follow one redirect.'
    },
    {
        id: 'R02', title: 'A request sends exactly the given address, parameters, headers and body',
        st: 'Host, port, protocol, path and credentials come from the address or from the options, options first. The server reads exactly the given query parameters behind those of the address. Header names are in small letters, given headers win. The body is sent as its bytes, as form or as JSON according to its type, with the right length in bytes. Without a valid host nothing is sent.',
        q: 'every query text, number and body text up to the bounds', files: ['request/src/request/options.ts', 'request/src/request/body.ts', 'request/src/request/content.ts'], mech: [['merge of address and options', 'request/src/request/options.ts'], ['body conversion', 'request/src/request/body.ts']],
        why: 'Encodings must be right for every character; the network tests use plain words.'
    },
    {
        id: 'R03', title: 'A request settles once, with the first decisive event and what was read',
        st: 'A request settles exactly once with the first decisive event: the end of the response or a handler that stops it gives the result with status, headers and all chunks read until then; a failing response rejects with this result and the error; a failing or late request rejects with the reason, and a late one is destroyed. Handlers see the response and every chunk in order. The body goes through the decoder its encoding names. A delay is waited for.',
        q: 'every order of network events up to the bounds', over: ['inputs', 'schedules', 'faults'], files: ['request/src/request/request.ts', 'request/src/request/content.ts'], mech: [['event listeners', 'request/src/request/request.ts'], ['decoder choice', 'request/src/request/content.ts']],
        why: 'Failures can come at any point of a response; the tests only see successful ones.'
    },
    {
        id: 'R04', title: 'Multipart bodies contain every field once, and nothing can break out of one',
        st: 'A form becomes a multipart body in which a server finds every field once and in order, with its name, file name, type and value; quotes and line breaks in names are escaped and line breaks in values are CRLF. Boundaries have 1 to 70 characters and are announced in the content type. Nested objects and lists become one field per leaf, named by its path.',
        q: 'every name, value and file up to the bounds', files: ['request/src/request/formData.ts', 'request/src/request/content.ts'], mech: [['serialiser', 'request/src/request/formData.ts']],
        why: 'A single unescaped quote or line break lets a name forge headers; tests use plain names.'
    },
    {
        id: 'T01', title: 'Number predicates judge every double by its value alone',
        st: 'For every double each number predicate says exactly what its name says: integers, their signed and unsigned 8, 16, 32 and 53 bit ranges with both ends, even and odd, fractions and float ranges, finite, infinite and NaN, sign, zero, primes, leap years, array indexes and timeouts. Options for NaN, infinity and conversion do exactly what they say, and no value that is no number is accepted or makes a predicate fail.',
        q: 'every double, and numbers up to the bounds for primes and years', files: ['types/src/number', 'types/src/cmp/isEqual.ts', 'types/src/cmp/isEvery.ts', 'types/src/date/isLeapYear.ts'], mech: [['integer ranges', 'types/src/number/int'], ['float ranges', 'types/src/number/float'], ['comparisons', 'types/src/cmp']],
        why: 'The ends of ranges, -0, NaN, infinities and halves are single values among 2^64; tests try a few dozen.'
    },
    {
        id: 'T02', title: 'Kind predicates accept exactly the values of their kind',
        st: 'Each predicate of a kind accepts exactly the values whose tag or type is that kind and always answers true or false without failing; equal values get equal answers however often one asks. The filled variants need at least one entry, the list variants need a real list with at least one value and only values of the kind, and size and length predicates need a safe integer that is not negative.',
        q: 'every tag text up to the bounds, every list of kinds and every number as size', files: ['types/src/type/getTag.ts', 'types/src/collection', 'types/src/object', 'types/src/string', 'types/src/function', 'types/src/error', 'types/src/buffer'], mech: [['tag cache', 'types/src/type/getTag.ts'], ['list predicates', 'types/src/array/isArrayFilled.ts']],
        why: 'A predicate that accepts one foreign kind is found only by asking it about that kind; each test asks about some.'
    },
    {
        id: 'T03', title: 'Predicates of names, list-like objects, descriptors and prototypes are exact',
        st: 'A text is a variable name exactly when it is an identifier, escapes included, and no reserved word. An object is like a list when its length is one a list can have and, as far as asked for, its keys are the indexes. A descriptor is one that defines a property and has boolean flags. Plain and pure objects, filled objects, own and inherited keys, prototypes and valid dates are told apart exactly.',
        q: 'every text, length and combination of attributes up to the bounds', files: ['types/src/variable/isVarName.ts', 'types/src/array/isArrayLike.ts', 'types/src/property', 'types/src/object', 'types/src/date/isDateValid.ts'], mech: [['identifier pattern', 'types/src/variable/isVarName.ts'], ['attribute rules', 'types/src/property/isPropertyDescriptor.ts']],
        why: 'Attributes and keys combine to thousands of cases and identifiers to a million characters.'
    },
    {
        id: 'T04', title: 'Assertions throw a TypeError exactly when their predicate says no',
        st: 'Every assertion returns nothing when its predicate accepts the value with the given options, and throws a TypeError when it does not; options such as levels, NaN, lengths, keys, tags, conditions and evaluators reach the predicate unchanged.',
        q: 'every double, text and kind of value up to the bounds', files: ['asserts/src'], mech: [['guard', 'asserts/src/constants/typeGuard.ts']],
        why: 'Two hundred assertions pair up with two hundred predicates and no test covers the package.'
    },
    {
        id: 'U01', title: 'A copy has the shape of the original and shares nothing with it',
        st: 'copy() of plain objects, lists with holes, maps, sets, dates, patterns, errors, boxed values, buffers, views and addresses, nested and cyclic in any way, has the same kind, prototype, keys in the same order with the same attributes, and contents; no object of the original is reachable from it, and what was one object in the original is one object in the copy. allAttrs lists all own keys, lackAttrs the ones missing in a target, and copyAttrs gives a target exactly the keys of the source, leaving alone what was there when asked to.',
        q: 'every nesting and reference up to the bounds and every leaf', files: ['util/src/copy.ts', 'util/src/copyAttrs.ts', 'util/src/allAttrs.ts', 'util/src/lackAttrs.ts'], mech: [['copier', 'util/src/copy.ts'], ['attributes', 'util/src/copyAttrs.ts']],
        why: 'Sharing shows only when the copy is changed afterwards, and cycles and references combine with every container.'
    },
    {
        id: 'U02', title: 'The text of a value evaluates to an equal value',
        st: 'stringify() in util gives an expression that evaluates to an equal value: every text, number (-0 and NaN included), big integer, symbol, list with holes, object with any key or without prototype, map, set, date, pattern, error, boxed value, buffer and typed array, nested in any way; what contains itself is shown as [Circular]. asyncStringify gives the same text with promises shown by state and content, and answers even when a promise never settles. Own ways to text win, and failures reach the caller or its handler.',
        q: 'every text, key and nesting up to the bounds and every state of a promise', files: ['util/src/stringify.ts'], mech: [['writer', 'util/src/stringify.ts']],
        why: 'Keys and texts that need escaping, holes and -0 are single values that turn into other programs; nothing tests the module.'
    },
    {
        id: 'D01', title: 'Readers of lines give every line of a text or buffer once and in order',
        st: 'readline and readlineFromCode split a text or buffer at every line feed, carriage return and pair of both (readlineFromCode also at U+2028, U+2029 and U+0085) and nowhere else: joining the lines with their ends gives the text again. Buffers are decoded with the given encoding, UTF-8 unless told otherwise. A callback gets every line in order, and stripBOM takes away one mark at the start and nothing else.',
        q: 'every text and byte sequence up to the bounds in every encoding', files: ['fs/src/readline.ts', 'fs/src/readlineFromCode.ts', 'fs/src/stripBOM.ts'], mech: [['splitter', 'fs/src/readline.ts']],
        why: 'No test covers the package; ends of lines at the end, in pairs and within characters of several bytes are single inputs.'
    },
    {
        id: 'D02', title: 'diffFile says whether two files have the same content',
        st: 'diffFile answers true exactly when the contents of the two files are equal and false when they differ, whatever their lengths, wherever the difference is and however few bytes each read returns; it fails when a file cannot be read, and closes what it opened.',
        q: 'every content at the ends of blocks, every short read and every fault up to the bounds', files: ['fs/src/diffFile.ts'], mech: [['block comparison', 'fs/src/diffFile.ts']],
        why: 'Differences in the last partial block and short reads need files of particular lengths and a particular schedule.'
    },
    {
        id: 'D03', title: 'Copying loses no file and overwrites none without being forced to',
        st: 'copy, copyFile and copySymbolicLink leave the source as it is whatever fails. A success means that every file, folder and link of the source is in the target with the same content, links as links to the same place; what was in the target before stays, and its files keep their content unless copying is forced. A failure is told, a folder is not copied into itself, and nothing outside the target changes.',
        q: 'every tree, target and fault up to the bounds', files: ['fs/src/copy.ts', 'fs/src/copyFile.ts', 'fs/src/copySymbolicLink.ts', 'fs/src/mkdir.ts'], mech: [['recursion over folders', 'fs/src/copy.ts'], ['overwriting', 'fs/src/copyFile.ts']],
        why: 'Loss needs a failing write or an existing file deep in the tree; no test touches the package.'
    },
    {
        id: 'D04', title: 'Deleting removes what was named and never follows links out of it',
        st: 'deleteOne removes exactly the file, folder or link it was given, and clearDir exactly what is in a folder; links are removed, and what they lead to and everything beside stay. What cannot be deleted is told, and a success means that it is gone.',
        q: 'every tree, path and fault up to the bounds', files: ['fs/src/deleteOne.ts', 'fs/src/clearDir.ts'], mech: [['deleting', 'fs/src/deleteOne.ts'], ['clearing', 'fs/src/clearDir.ts']],
        why: 'A followed link deletes what nobody named, and only trees with links show it.'
    },
    {
        id: 'D05', title: 'Listings name every file and folder once, and shortcuts run no commands',
        st: 'fileList gives every file in all folders below a path once, or all names in the folder with depthOnce, and fails rather than leaving gaps; findDir gives every outermost folder of a wanted name and nothing else. isDir, isFile, isSymbolicLink and symbolicLink tell the kinds apart. readLnk asks about exactly the path it was given, which can never become part of a command, and fails where there is no shortcut.',
        q: 'every tree, fault and path text up to the bounds', files: ['fs/src/fileList.ts', 'fs/src/findDir.ts', 'fs/src/isDir.ts', 'fs/src/isFile.ts', 'fs/src/isSymbolicLink.ts', 'fs/src/symbolicLink.ts', 'fs/src/readLnk.ts'], mech: [['walk', 'fs/src/fileList.ts'], ['search', 'fs/src/findDir.ts'], ['quoting', 'fs/src/readLnk.ts']],
        why: 'Nested folders of the same name, links in circles and quotes in names are particular trees and texts; no test touches the package.'
    },
    {
        id: 'D06', title: 'Reading and writing files transfers all of the content or fails',
        st: 'readFile gives the text of the whole file and leaves it as it is; readlineStream gives every line once and in order, to its callback or as a list, empty for an empty file; readFragment gives the characters from start to end, or the first line of them. writeFile makes the file contain exactly the data, objects and lists as JSON, and creates missing folders unless told not to. However the data is cut into pieces, a failure is told by rejecting, never left uncaught, and nothing stays open. Reading lines needs no right to write.',
        q: 'every content, cut into pieces, range and fault up to the bounds', files: ['fs/src/readFile.ts', 'fs/src/readlineStream.ts', 'fs/src/readFragment.ts', 'fs/src/writeFile.ts', 'fs/src/mkdir.ts'], mech: [['stream of lines', 'fs/src/readlineStream.ts'], ['fragment', 'fs/src/readFragment.ts'], ['JSON and folders', 'fs/src/writeFile.ts']],
        why: 'Pieces that end within a line and errors in the middle of a stream depend on timing no test controls; no test touches the package.'
    },
    {
        id: 'G01', title: 'execAll finds every match once, and tests of patterns depend on nothing before',
        st: 'execAll gives every match of a pattern in a text, in order, each once, for every pattern, flag and lastIndex, and always ends, also when the pattern matches the empty text; with a key it gives that property of each match and refuses keys that no match has. testEvery and testSome tell whether every or any pattern of a list matches the text, whatever was tested before with the same patterns. mapReplace replaces as the given pairs say one after the other, and matchNextIndex gives the index behind the match.',
        q: 'every text, flag and starting position up to the bounds', files: ['regexp/src/execAll.ts', 'regexp/src/testEvery.ts', 'regexp/src/testSome.ts', 'regexp/src/mapReplace.ts', 'regexp/src/matchNextIndex.ts'], mech: [['loop over matches', 'regexp/src/execAll.ts'], ['list of tests', 'regexp/src/testEvery.ts']],
        why: 'Empty matches and the state of global patterns show only for particular texts and in the second of two calls.'
    },
    {
        id: 'G02', title: 'Validators accept exactly the well-formed addresses, numbers and links',
        st: 'isIp accepts exactly IPv4 addresses and IPv6 addresses of RFC 4291 (eight groups, one run of them as "::", an IPv4 address at the end), also in brackets and with a port, and nothing behind them. isEmail accepts only one mailbox whose parts keep to the limits of length. isChinaPhoneNumber accepts exactly eleven digits of a mobile number behind an optional prefix. isURI never throws for a text and accepts nothing beyond the limit of length.',
        q: 'every text in the places that vary, up to the bounds', files: ['regexp/src/isIp.ts', 'regexp/src/isEmail.ts', 'regexp/src/isChinaPhoneNumber.ts', 'regexp/src/isURI.ts'], mech: [['addresses', 'regexp/src/isIp.ts'], ['mail addresses', 'regexp/src/isEmail.ts']],
        why: 'Acceptance of malformed input is a claim about all texts; the tests list a few dozen.'
    },
    {
        id: 'H01', title: 'normalize keeps the place a path names, and Windows paths are told exactly',
        st: 'normalize gives an absolute path in the home folder for "~" and whatever lies below or beside it through "~/", and for any other text the same place without superfluous dots and slashes; it refuses what is no text. isWindowsPath and isWindowsExtendedLengthPath accept exactly paths with a drive or a relative start whose names are allowed on Windows (no reserved names, characters or endings) within the limits of length, in time that does not explode. unifiedSeparator changes separators and nothing else.',
        q: 'every text up to the bounds behind each kind of start, and the limits of length', files: ['path/src/normalize.ts', 'path/src/isWindowsPath.ts', 'path/src/isWindowsExtendedLengthPath.ts', 'path/src/unifiedSeparator.ts'], mech: [['home folder', 'path/src/normalize.ts'], ['pattern of Windows paths', 'path/src/windowsPathSource.ts']],
        why: 'A path that resolves elsewhere makes the file functions work on other files; the tests try eleven paths.'
    },
    {
        id: 'K01', title: 'kill signals every process of a tree once, calls back once and fails openly',
        st: 'kill and asyncKill send the signal once to the given process and to every process below it, children before their parents, whatever the order in which the lists of children arrive, and to no other process. Processes that are gone meanwhile are skipped. The callback is called exactly once, with an error when a process refused or the processes could not be listed. Numbers that are no processes are refused, and a text only becomes part of a command when it is a number.',
        q: 'every tree, order of answers and fault up to the bounds', files: ['os/src/kill.ts'], mech: [['walk over the tree', 'os/src/kill.ts']],
        why: 'Lists that arrive in another order and processes that move or end meanwhile are schedules; no test touches the package.'
    },
    {
        id: 'M01', title: 'Styled text looks as asked and leaves the terminal as it was',
        st: 'fontColor writes the text itself between sequences after which a terminal shows it with exactly the formats and colours asked for, and then resets exactly what it set. ansiFormat gives codes that set and reset the formats it was asked for and no others. The colour functions give the codes of the colour with that name or number in front and behind and refuse everything else; the cursor, erase and scroll functions give the sequences of ECMA-48 with their numbers.',
        q: 'every combination of formats and colours, every text and number up to the bounds', files: ['term/src/ansiFormat.ts', 'term/src/fontColor.ts', 'term/src/colorCode8bit.ts', 'term/src/colorCode24bit.ts', 'term/src/colorNameCode3bit.ts', 'term/src/colorNameCode8bit.ts', 'term/src/colorNameCode24bit.ts', 'term/src/sequence/cursor.ts', 'term/src/sequence/erase.ts', 'term/src/sequence/scroll.ts'], mech: [['formats', 'term/src/ansiFormat.ts'], ['styled text', 'term/src/fontColor.ts']],
        why: 'Formats share reset codes, so only combinations show what is left on; there are thousands of them.'
    },
    {
        id: 'M02', title: 'A progress bar shows the steps done, ends when complete and restores the cursor',
        st: 'After k of n steps a ProgressBar shows on its line the floor of the percentage and of the tenths, the count and the text, as far as they are asked for; without a total it says that it runs. Writing without a step changes no numbers. pushWrite and write answer true exactly when the last step is done, then and at end() the line is empty and the cursor is visible; before, it is hidden if asked for.',
        q: 'every number of steps, total, text and option up to the bounds', files: ['term/src/progressBar.ts'], mech: [['numbers', 'term/src/progressBar.ts']],
        why: 'Counts off by one and bars that never end need whole runs of steps for many totals; the tests run a few.'
    },
    {
        id: 'M03', title: 'format shows every part of the information once, in order and unchanged',
        st: 'format shows kind and title, then each given part with its heading in the order of the keys, once and with the content unchanged, whatever signs it contains, then date and stack when asked for (the stack always for errors), between dividers unless told otherwise, and does not change the information. printError, printInfo and printWarn print their texts once, in order and with their kind.',
        q: 'every subset and order of parts, every text and option up to the bounds', files: ['term/src/format.ts', 'term/src/print.ts', 'term/src/printError.ts', 'term/src/printInfo.ts', 'term/src/printWarn.ts'], mech: [['list of parts', 'term/src/format.ts']],
        why: 'Placeholders in texts and combinations of parts are inputs the tests do not try.'
    },
    {
        id: 'D07', title: 'destPath maps a file below the source to the same place below the target',
        st: 'destPath gives for a file in the source folder the same relative place in the target folder, and for a file behind a shortcut in the source folder its place in a folder with the name of that shortcut; whatever lies elsewhere is given back as it is, so no other place outside the target is ever named. Only names of whole folders count. It makes the folder of the result only when asked to, fails when that is refused, and refuses empty paths.',
        q: 'every source, file and shortcut up to the bounds', files: ['fs/src/destPath.ts'], mech: [['relative places', 'fs/src/destPath.ts']],
        why: 'Paths that only contain the name of the source lead out of the target; no test touches the package.'
    },
    {
        id: 'R05', title: 'Answers of remote services are read as data and never run',
        st: 'queryDNS asks about every host once and in order and lists for each exactly the addresses of a successful answer, none for any other; it fails when a request fails. publicIP gives the address and place of a well-formed successful answer, rejects for anything else, and runs no code that the answer contains.',
        q: 'every status, answer and failure up to the bounds', files: ['request/src/dns/queryDNS.ts', 'request/src/ip/publicIP.ts'], mech: [['addresses', 'request/src/dns/queryDNS.ts'], ['own address', 'request/src/ip/publicIP.ts']],
        why: 'Answers of others cannot be listed in tests, and no test goes there.'
    },
    {
        id: 'W01', title: 'Tools for Windows read tables exactly, tell success and pass names as data',
        st: 'windowsTaskList gives every process of the table once with its name, number, session and memory, whatever blanks and digits the name contains, and findWindowsTask exactly those with the given name. killWindowsTask answers true exactly when the process was ended, and passes the name as one argument that no shell sees. windowsMakeShortcut passes target and options unchanged and in order, and throws on other systems and for missing files. open starts one process with the command of the system and its arguments unchanged; the platform is told correctly, both versions of WSL included, and windowsLocal gives the name of the culture, and null elsewhere without running anything.',
        q: 'every name, table, exit and option up to the bounds', files: ['os/src/windows/taskList.ts', 'os/src/windows/findTask.ts', 'os/src/windows/killTask.ts', 'os/src/windows/makeShortcut.ts', 'os/src/windows/appendCmd.ts', 'os/src/platform.ts', 'process/src/open.ts'], mech: [['table', 'os/src/windows/taskList.ts'], ['command', 'process/src/open.ts']],
        why: 'No test covers these functions, and none could on Linux without stand-ins for the commands of Windows.'
    },
    {
        id: 'A10', title: 'Conversions to lists and objects keep every entry',
        st: 'toObject asks for key and value of every entry once and in order and gives an ordinary object with exactly one own property per key, whatever the key is called, which holds the value of the last entry with that key. fromArrayLike gives a new list with every entry at its place and the length of the source, which is left alone. toArray gives a list back itself, wraps any other value in a list of one, and makes null and undefined an empty list unless the option for it is set. sortWords orders words by the collation of the platform, or against it when asked, keeps every word, and keeps the order of words that compare equal.',
        q: 'every list, key, option and collation up to the bounds', files: ['array/src/convert/toObject.ts', 'array/src/convert/toArray.ts', 'array/src/fromArrayLike.ts', 'array/src/sort/sortWords.ts'], mech: [['objects', 'array/src/convert/toObject.ts'], ['order of words', 'array/src/sort/sortWords.ts']],
        why: 'Keys come from data; tests try a handful of names and one collation.'
    },
    {
        id: 'L01', title: 'Scripts, blanks and punctuation are told by the character database',
        st: 'inChinese is true exactly for texts with a unified ideograph, in or outside the basic plane, wherever it stands, and with the option for kana never for a text with a letter of Hiragana or Katakana in the basic plane. inJapanese is true exactly for texts with an ideographic or kana character of the basic plane; inChkPunctuation sees every punctuation mark of the blocks for Chinese, Japanese and Korean, half- and full-width forms and general punctuation, and nothing in texts without a character of these blocks. The tables for blanks, ASCII, ideographs, Han, Hiragana, Katakana, Hangul and punctuation hold every character of their kind that Unicode 12 has in the basic plane and, apart from the documented additions, no other.',
        q: 'every code unit for the tables, every text up to the bounds for the functions', files: ['regexp/src/inChinese.ts', 'regexp/src/inJapanese.ts', 'regexp/src/inChkPunctuation.ts', 'regexp/src/source/unifiedIdeograph.ts', 'regexp/src/source/punctuation.ts'], mech: [['ideographs', 'regexp/src/source/unifiedIdeograph.ts'], ['kana', 'regexp/src/inChinese.ts']],
        why: 'The tables have thousands of characters in dozens of ranges; tests look at a few letters.'
    },
    {
        id: 'S11', title: 'Amounts of bytes get the right unit, and JSON is read as it is',
        st: 'formatBytes gives amounts below one unit as they are, and any other amount, rounded half away from zero to the decimals asked for, in the smallest unit in which the rounded figure stays below the next unit, with its sign. parseJson resolves with exactly the value that is written for texts of JSON, passed through the reviver if there is one, and rejects for all others.',
        q: 'every amount of bytes and text up to the bounds', files: ['string/src/bytes/formatBytes.ts', 'string/src/parseJson.ts'], mech: [['unit', 'string/src/bytes/formatBytes.ts']],
        why: 'Figures that are rounded up into the next unit lie at single amounts out of 2^53.'
    },
    {
        id: 'F09', title: 'Waiting times are written out exactly, and clearing timers leaves none',
        st: 'timeoutLog writes one line: the template with every {} replaced by the duration, which below a second is given in milliseconds, below a day as hours, minutes and seconds and above with whole days, milliseconds only if there are any; whole days have no time of day. It refuses anything but whole durations from 0 to 2147483647 and then writes nothing. clearTimeoutAll clears every pending timer with a number, none set afterwards, and gives back the number of the last one.',
        q: 'every duration, every number and state of timers up to the bounds', files: ['function/src/timeout/timeoutLog.ts', 'function/src/timeout/clearTimeoutAll.ts'], mech: [['text', 'function/src/timeout/timeoutLog.ts']],
        why: 'Two thousand million durations; no test looks at any.'
    },
    {
        id: 'M04', title: 'A question at the terminal is asked once and sets the terminal free',
        st: 'readByQuestion shows the message once and unchanged at the input and output of the process, waits for the answer, closes the terminal and resolves with the answer without the blanks around it, also for several questions in turn.',
        q: 'every message and answer up to the bounds', files: ['term/src/readByQuestion.ts'], mech: [['question', 'term/src/readByQuestion.ts']],
        why: 'It needs a terminal: no test goes there.'
    }
];
