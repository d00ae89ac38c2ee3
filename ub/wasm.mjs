// node wasm.mjs FILE ARGS: run the program on a machine of 32 bits.
import { readFileSync, writeSync } from "node:fs";
const [file, ...args] = process.argv.slice(2);
let memory;
const at = (p, n) => new Uint8Array(memory.buffer, p >>> 0, n);
const { instance } = await WebAssembly.instantiate(readFileSync(file), {
  host: {
    arg: (k, p) => {
      if (k >= args.length) return -1;
      const b = Buffer.from(args[k]);
      at(p, b.length).set(b);
      return b.length;
    },
    put: (p, n) => {
      let b = at(p, n);
      while (b.length) b = b.subarray(writeSync(1, b));
    },
  },
});
memory = instance.exports.memory;
instance.exports.main(0, 0);
