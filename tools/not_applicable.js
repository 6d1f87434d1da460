'use strict';
// properties no check claims, with the reason
module.exports = [];
