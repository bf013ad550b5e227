// run.mjs FILE.wasm ARGS...: run a wasip1 program.
import { WASI } from 'node:wasi';
import { readFileSync } from 'node:fs';
const wasi = new WASI({ version: 'preview1', args: process.argv.slice(2), env: process.env });
const instance = new WebAssembly.Instance(new WebAssembly.Module(readFileSync(process.argv[2])), wasi.getImportObject());
process.exitCode = wasi.start(instance);
