// node probe.cjs probe.wasm ARG...: runs the probe built for a 32-bit platform
const fs = require('fs');
const args = Buffer.from(['probe', ...process.argv.slice(3)].join('\n'));
const out = [];
let memory;
const env = {
  host_say(p, n) { out.push(Buffer.from(memory.buffer, p, n).toString('latin1')); if (out.length > 500) flush(); },
  host_args(p, n) { const b = args.subarray(0, n); new Uint8Array(memory.buffer, p, b.length).set(b); return b.length; },
};
function flush() { if (out.length) { fs.writeSync(1, Buffer.from(out.join('\n') + '\n', 'latin1')); out.length = 0; } }
const m = new WebAssembly.Instance(new WebAssembly.Module(fs.readFileSync(process.argv[2])), { env });
memory = m.exports.memory;
try { m.exports.main(0, 0); } catch (e) { flush(); console.error('probe: ' + (e && e.stack || e)); process.exit(101); }
flush();
