// Runs port.c, compiled for WebAssembly: a machine with 32-bit addresses.
// usage: node port.js MODULE COMMANDS RESULTS
const fs = require('fs');
const [module_, commands, results] = process.argv.slice(2);
const input = fs.readFileSync(commands);
const out = fs.openSync(results, 'w');
let at = 0, memory;
const bytes = (p, n) => new Uint8Array(memory.buffer, p, n);
const env = {
  vp_read: (to, n) => {
    if (at + n > input.length) process.exit(3);
    bytes(to, n).set(input.subarray(at, at + n));
    at += n;
    return 0;
  },
  vp_write: (from, n) => fs.writeSync(out, bytes(from, n)),
  memcpy: (a, b, n) => (bytes(a, n).set(bytes(b, n).slice()), a),
  memmove: (a, b, n) => (bytes(a, n).set(bytes(b, n).slice()), a),
  memset: (a, x, n) => (bytes(a, n).fill(x), a),
  memcmp: (a, b, n) => Buffer.compare(bytes(a, n), bytes(b, n)),
  abort: () => process.abort(),
  __assert_fail: () => process.abort(),
};
const instance = new WebAssembly.Instance(new WebAssembly.Module(fs.readFileSync(module_)), {env});
memory = instance.exports.memory;
if (instance.exports.port_main() !== 0) process.abort();
