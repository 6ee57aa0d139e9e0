// wasm replay driver: same script language as driver.c
const fs = require('fs');
const [, , file, sigs] = process.argv;
const sig = JSON.parse(sigs);
const script = fs.readFileSync(0, 'utf8').split('\n');
const mod = new WebAssembly.Module(fs.readFileSync(file));
const imports = {};
for (const i of WebAssembly.Module.imports(mod)) {
  (imports[i.module] = imports[i.module] || {})[i.name] =
    i.kind === 'function' ? () => { throw new Error('panicked: import ' + i.name); } : undefined;
}
const inst = new WebAssembly.Instance(mod, imports);
const e = inst.exports;
const mem = e.memory;
let top = mem.buffer.byteLength;
let fill = 0xA5;
const obj = {}, rets = {};
function mk(id, size, align, place, mod) {
  const need = size + 512;
  const pages = Math.ceil(need / 65536) + 1;
  mem.grow(pages);
  const u = new Uint8Array(mem.buffer);
  u.fill(fill, top, top + pages * 65536);
  let p = top + 64 + (mod - mod % align) % 64;
  obj[id] = p;
  top += pages * 65536;
}
try {
  for (const l of script) {
    const f = l.trim().split(' ').filter(x => x.length);
    if (!f.length) continue;
    const u = new Uint8Array(mem.buffer), dv = new DataView(mem.buffer);
    switch (f[0]) {
      case 'F': fill = +f[1]; break;
      case 'o': mk(f[1], +f[2], +f[3], +f[4], +f[5]); break;
      case 'i': { const h = f[3] || ''; for (let k = 0; k < h.length; k += 2) u[obj[f[1]] + +f[2] + k / 2] = parseInt(h.substr(k, 2), 16); break; }
      case 'w': { let p = obj[f[1]]; const wb = +f[2]; for (const x of f.slice(3)) { if (wb === 8) dv.setBigUint64(p, BigInt('0x' + x), true); else dv.setUint32(p, parseInt(x, 16), true); p += wb; } break; }
      case 'c': {
        const s = sig[f[1]]; const [as, r] = s.split(':');
        const args = f.slice(3).map((x, i) => {
          let v = x[0] === '@' ? BigInt(obj[x.slice(1).split('+')[0]]) + BigInt(x.split('+')[1]) : BigInt(x);
          return as[i] === 'q' ? BigInt.asIntN(64, v) : Number(BigInt.asIntN(32, v));
        });
        const v = e[f[1]](...args);
        rets[f[2]] = v === undefined ? 0n : (typeof v === 'bigint' ? BigInt.asUintN(64, v) : BigInt(v >>> 0));
        break;
      }
      case 'd': {
        const u = new Uint8Array(mem.buffer), dv = new DataView(mem.buffer);
        let o = '='; const wb = +f[4];
        for (let k = 0; k < +f[3]; k += wb) { const p = obj[f[1]] + +f[2] + k; const v = wb === 1 ? u[p] : wb === 2 ? dv.getUint16(p, true) : wb === 4 ? dv.getUint32(p, true) : dv.getBigUint64(p, true); o += v.toString(16) + ' '; }
        console.log(o); break;
      }
      case 'm': u.copyWithin(obj[f[1]], obj[f[2]], obj[f[2]] + +f[3]); break;
      case 'r': console.log('=' + rets[f[1]].toString(16)); break;
    }
  }
} catch (x) {
  console.error('panicked? ' + x);
  process.exit(x instanceof WebAssembly.RuntimeError ? 101 : 1);
}
