module.exports = require('./lib_multisig.js')(true);
