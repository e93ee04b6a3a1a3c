// Drives src/jswrapper/getRandomSeed.js in scripted browser-like environments and reports what it saw:
//   V <class> <detail>   a refuted observation      C <counter> <n>      D <description of a distinct observation>
'use strict';
const fs = require('fs');
const [file, seedArg, roundsArg] = process.argv.slice(2);
const src = fs.readFileSync(file, 'utf8');
let st = (parseInt(seedArg, 10) >>> 0) || 1;
const rnd = n => { st ^= st << 13; st >>>= 0; st ^= st >>> 17; st ^= st << 5; st >>>= 0; return st % n; };
const out = [], bad = [], counters = {};
const count = (k, n = 1) => { counters[k] = (counters[k] || 0) + n; };
const V = (c, d) => { if (bad.length < 50) bad.push('V ' + c + ' ' + d); };
class Vec {
    constructor() { this.a = []; }
    push_back(x) { this.a.push(x); }
    size() { return this.a.length; }
    get(i) { return this.a[i]; }
    set(i, x) { this.a[i] = x; return true; }
    resize(n, x) { while (this.a.length < n) this.a.push(x); this.a.length = n; }
    delete() {}
}
const show = x => { try { return typeof x === 'symbol' ? 'symbol' : typeof x + ' ' + JSON.stringify(x, (k, v) => typeof v === 'bigint' ? v + 'n' : v) + ' ' + String(x); } catch (e) { return typeof x; } };

// one environment: where crypto lives, how the generator behaves
function environment(place, mode) {
    const e = { delivered: [], draws: 0, mathRandom: 0, place, mode };
    const gen = {
        getRandomValues(view) {
            e.draws++;
            if (mode === 'throws') throw new Error('generator failed');
            if (view.byteLength > 65536) throw new Error('QuotaExceededError');
            const b = new Uint8Array(view.buffer, view.byteOffset, view.byteLength);
            for (let i = 0; i < b.length; i++) b[i] = mode === 'zero' ? 0 : mode === 'one' ? (i === b.length - 1 ? 1 : 0) : mode === 'first' ? (i === 0 ? 128 : 0) : mode === 'ff' ? 255 : rnd(256);
            e.delivered.push(...b);
            return view;
        }
    };
    const c = mode === 'empty' ? {} : mode === 'nofunction' ? { getRandomValues: 7 } : mode === 'none' ? undefined : gen;
    const g = {}, self = {}, win = {};
    if (place === 'globalThis') g.crypto = c;
    if (place === 'self') self.crypto = c;
    if (place === 'window') win.crypto = c;
    if (place === 'all') g.crypto = self.crypto = win.crypto = c;
    const use = (o, p) => place === p || place === 'all' || rnd(2) ? o : undefined;
    const gG = use(g, 'globalThis'), sG = use(self, 'self'), wG = use(win, 'window');
    const fakeMath = new Proxy(Math, { get(t, k) { if (k === 'random') { e.mathRandom++; return () => 0.5; } return t[k]; } });
    const Module = { Uint8Vector: Vec };
    new Function('Module', 'globalThis', 'self', 'window', 'Math', 'require', 'process', 'crypto', src)(
        Module, gG, sG, wG, fakeMath, undefined, undefined, place === 'globalThis' || place === 'all' ? c : undefined);
    e.f = Module['getRandomSeed'] || Module.getRandomSeed;
    e.ok = typeof e.f === 'function';
    e.working = !['throws', 'none', 'empty', 'nofunction'].includes(mode);
    return e;
}

function attempt(e, args) {
    const what = 'getRandomSeed(' + args.map(show).join(',') + ') crypto on ' + e.place + ' generator ' + e.mode;
    if (!e.ok) { V('seed-helper-missing', what); return; }
    e.delivered.length = 0;
    e.draws = 0;
    let r, threw = false;
    try { r = e.f(...args); } catch (x) { threw = true; }
    count('seed_calls');
    if (e.mathRandom) V('seed-helper-uses-Math.random', what);
    const asked = args.length === 0 || args[0] === undefined ? 48 : (() => { try { return typeof args[0] === 'bigint' ? Number(args[0]) : +args[0]; } catch (x) { return NaN; } })();
    const plain = args.length === 0 || args[0] === undefined || typeof args[0] === 'number';
    const sensible = Number.isInteger(asked) && asked > 0;
    if (threw) {
        if (plain && sensible && asked <= 65536 && e.working && !(e.mode === 'zero' && asked >= 16)) V('seed-helper-refuses', what);
        count('seed_refusals');
    } else {
        const a = r && Array.isArray(r.a) ? r.a : null;
        if (!e.working) V('seed-helper-without-generator', what + ' returned ' + (a ? a.length : typeof r));
        else if (!sensible) V('seed-helper-bad-size', what + ' returned ' + (a ? a.length + ' values ' + a.slice(0, 3) : typeof r));
        else if (!a || a.length !== asked) V('seed-helper-size', what + ' returned ' + (a ? a.length : typeof r));
        else if (e.mode === 'zero' && asked >= 16) V('seed-helper-dead-generator', what);
        else if (a.some((x, i) => x !== e.delivered[i]) || e.delivered.length !== asked) V('seed-helper-bytes', what + ' differ from the generator');
        count('seeds');
    }
    out.push('D ' + what + (e.delivered.length ? ' ' + e.delivered.slice(0, 4) : ''));
}
const places = ['globalThis', 'self', 'window', 'all'];
const modes = ['random', 'random', 'random', 'zero', 'one', 'first', 'ff', 'throws', 'none', 'empty', 'nofunction'];
const odd = [0, -1, -0, 1.5, 15.999, NaN, Infinity, -Infinity, -48, '48', '', '0', 'abc', ' 16 ', null, [], [48], [1, 2], {}, { valueOf() { return 3; } },
    true, false, () => 4, 48n, 0n, Symbol('x'), 65537, 70000, 131072, 2 ** 32, 2 ** 53, 0.0000001, 1e300, new Uint8Array(4), new Number(48), new String('5')];
const rounds = parseInt(roundsArg, 10) || 1;
for (let q = 0; q < rounds; q++)
    for (const p of places)
        for (const m of modes) {
            const e = environment(p, m);
            attempt(e, []);
            attempt(e, [undefined]);
            for (const n of [1, 2, 15, 16, 17, 31, 32, 47, 48, 49, 64, 100, 255, 256, 257, 1024, 65535, 65536].slice(0, q === 0 ? 99 : 14)) attempt(e, [n]);
            for (let i = 0; i < 6; i++) attempt(e, [1 + rnd(2000)]);
            for (const x of odd) if (q === 0 || rnd(4) === 0) attempt(e, [x]);
        }
for (const k in counters) out.push('C ' + k + ' ' + counters[k]);
out.push('END');
process.stdout.write(bad.concat(out).join('\n') + '\n');
