// Emits, for Unicode 16.0.0, the normalization data as ICU (node's String.prototype.normalize) sees it.
// node 22.22 carries Unicode 17.0; the code points 17.0 added are dropped (NEW17, checked by count: 4803).
const NEW17 = `88f-88f c5c-c5c cdc-cdc 1acf-1add 1ae0-1aeb 20c1-20c1 2b96-2b96 a7ce-a7cf a7d2-a7d2 a7d4-a7d4 a7f1-a7f1 fbc3-fbd2 fd90-fd91 fdc8-fdce 10940-10959 10ec5-10ec7 10ed0-10ed8 10efa-10efb 11b60-11b67 11db0-11ddb 11de0-11de9 16ea0-16eb8 16ebb-16ed3 16ff2-16ff6 187f8-187ff 18d09-18d1e 18d80-18df2 1ccfa-1ccfc 1ceba-1ced0 1cee0-1cef0 1e6c0-1e6de 1e6e0-1e6f5 1e6fe-1e6ff 1f6d8-1f6d8 1f777-1f77a 1f8d0-1f8d8 1fa54-1fa57 1fa8a-1fa8a 1fa8e-1fa8e 1fac8-1fac8 1facd-1facd 1faea-1faea 1faef-1faef 1fbfa-1fbfa 2b73a-2b73f 2cea2-2cead 323b0-33479`;
const new17 = new Set();
for (const r of NEW17.split(/\s+/)) { const [a, b] = r.split('-').map(x => parseInt(x, 16)); for (let u = a; u <= b; u++) new17.add(u); }
if (process.versions.unicode !== '17.0' || new17.size !== 4803) throw new Error('unexpected ICU data');
const cps = s => [...s].map(c => c.codePointAt(0));
const hx = a => a.map(x => x.toString(16)).join(' ');
const out = [];
const isH = u => u >= 0xAC00 && u < 0xAC00 + 11172;
function ranges(tag, pred) {
  let st = -1;
  for (let u = 0; u <= 0x110000; u++) {
    const ok = u < 0x110000 && !(u >= 0xD800 && u < 0xE000) && !new17.has(u) && pred(String.fromCodePoint(u));
    if (ok && st < 0) st = u;
    if (!ok && st >= 0) { out.push(`${tag} ${st.toString(16)} ${(u - 1).toString(16)}`); st = -1; }
  }
}
let known = new Map();
for (let u = 0; u < 0x110000; u++) {
  if ((u >= 0xD800 && u < 0xE000) || new17.has(u) || isH(u)) continue;
  const s = String.fromCodePoint(u), d = s.normalize('NFD'), k = s.normalize('NFKD'), c = s.normalize('NFC');
  if (d !== s) out.push(`D ${u.toString(16)} ${hx(cps(d))}`);
  if (k !== d) out.push(`K ${u.toString(16)} ${hx(cps(k))}`);
  if (d !== s && c === s) {
    const a = cps(d); const pre = cps(String.fromCodePoint(...a.slice(0, -1)).normalize('NFC'));
    const key = pre[0] + ',' + a[a.length - 1];
    if (pre.length !== 1 || known.has(key)) throw new Error('composite ' + u.toString(16));
    known.set(key, u);
    out.push(`P ${pre[0].toString(16)} ${a[a.length - 1].toString(16)} ${u.toString(16)}`);
  }
}
ranges('M', s => /\p{M}/u.test(s));
ranges('A', s => !/[\p{Cn}\p{Co}]/u.test(s));
// CJK compatibility ideographs: StandardizedVariants.txt gives the ideographs that share a base VS1, VS2, VS3
// in code point order.
const per = new Map();
for (let u = 0; u < 0x110000; u++) {
  if (!((u >= 0xF900 && u <= 0xFAFF) || (u >= 0x2F800 && u <= 0x2FA1F)) || new17.has(u)) continue;
  const s = String.fromCodePoint(u), d = cps(s.normalize('NFD'));
  if (d.length !== 1 || d[0] === u) continue;
  const n = per.get(d[0]) || 0; per.set(d[0], n + 1);
  out.push(`J ${u.toString(16)} ${d[0].toString(16)} ${(0xFE00 + n).toString(16)}`);
}
// Combining classes relative to known ones, for code points Python's 15.0 data does not know (argv[2]: json [[cp,ccc]..] of
// representatives, argv[3]: json list of candidates).
const reps = JSON.parse(process.argv[2]), cand = JSON.parse(process.argv[3]);
for (const u of cand) {
  const c = String.fromCodePoint(u);
  let lo = 0, hi = 256, moved = false;
  for (const [r, cl] of reps) {
    const m = String.fromCodePoint(r);
    if (('a' + c + m).normalize('NFD') === 'a' + m + c) { moved = true; lo = Math.max(lo, cl); }   // ccc(c) > cl
    if (('a' + m + c).normalize('NFD') === 'a' + c + m) { moved = true; hi = Math.min(hi, cl); }   // ccc(c) < cl
  }
  if (!moved) continue;
  const fit = [...new Set(reps.map(x => x[1]))].filter(x => x > lo && x < hi);
  if (fit.length !== 1) throw new Error('ccc ' + u.toString(16));
  out.push(`C ${u.toString(16)} ${u.toString(16)} ${fit[0]}`);
}
console.log(out.join('\n'));
