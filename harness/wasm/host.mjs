// node host.mjs MODULE: runs a module's work for each seed read, one digest per item written
import { readFileSync, readSync, writeSync } from 'node:fs'
const { instance: { exports: x } } = await WebAssembly.instantiate(readFileSync(process.argv[2]), {})
const text = p => { const m = new Uint8Array(x.memory.buffer); let s = ''; for (let i = Number(p); m[i]; ++i) s += String.fromCharCode(m[i]); return s }
if (x.__wasm_call_ctors) x.__wasm_call_ctors()
const hex = v => BigInt.asUintN(64, v).toString(16)
const n = x.count()
const say = s => { for (let b = Buffer.from(s), i = 0; i < b.length;) i += writeSync(1, b, i) }
let left = ''
const line = () => {
    for (;;) {
        const i = left.indexOf('\n')
        if (i >= 0) { const l = left.slice(0, i); left = left.slice(i + 1); return l }
        const b = Buffer.alloc(4096)
        let k = 0
        try { k = readSync(0, b, 0, b.length, null) } catch (e) { if (e.code == 'EAGAIN') continue; if (e.code != 'EOF') throw e }
        if (k == 0) return null
        left += b.toString('latin1', 0, k)
    }
}
say('items ' + n + ' ' + Array.from({ length: n }, (_, i) => text(x.name(i))).join(' ') + '\n')
for (let l; (l = line()) !== null;) {
    if (l == 'folded') {
        for (let i = 0; i < x.folds(); ++i) say('folded ' + text(x.folded_name(i)) + ' ' + hex(x.folded_from(i)) + ' ' + hex(x.folded(i)) + '\n')
        say('done\n')
        continue
    }
    const [a, b] = l.split(' ')
    try { say(hex(x.work(Number(a), BigInt.asIntN(64, BigInt('0x' + b)))) + '\n') }
    catch (e) { say('trap ' + String(e.message).replace(/\n/g, ' ') + ' ' + String(e.stack).split('\n').slice(1, 6).map(s => s.trim().split(' ')[1]).join(' < ') + '\n') }
}
