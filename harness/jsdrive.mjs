/* Executes scripts of calls on the JavaScript bindings and records them.
   node --expose-gc jsdrive.mjs JOBS IMAGES OUT MODULE */
import fs from 'fs'
import { pathToFileURL } from 'url'
const [jobsFile, imgFile, outFile, moduleFile] = process.argv.slice(2);
const R = await import(pathToFileURL(moduleFile));
const vp = globalThis.vp;
const jobs = JSON.parse(fs.readFileSync(jobsFile));
const raw = fs.readFileSync(imgFile);
const imgs = new Float32Array(raw.buffer, raw.byteOffset, raw.length >> 2);
const out = fs.openSync(outFile, 'a');
const emit = (t, e) => fs.writeSync(out, JSON.stringify({ t, ...e }) + '\n');
const ppb = v => Math.round(v * 1e9);
const sleep = () => new Promise(r => setTimeout(r, 0));

function code(x) {
	if(x instanceof R.RDError) {
		if(typeof x.message !== 'string' || !x.message) return 102;
		return x.rderror;
	}
	if(x?.constructor?.name === 'OutOfMemoryError') return 1;
	if(x?.constructor === Error && x.message.startsWith('Unrecognized')) return 100;
	return 102;
}
function lists(e, r) {
	if(Object.keys(r).sort().join() !== 'heights,widths') throw new TypeError('result');
	for(const [k, l] of [['lw', r.widths], ['lh', r.heights]]) {
		if(!Array.isArray(l) || !l.every(x => x instanceof R.Resolution)) throw new TypeError('list');
		e[k] = l.map(x => [x.index, ppb(x.confidence)]);
	}
}
function data(o, list) {
	const fr = list.map(n => imgs.subarray(jobs.offs[n][0], jobs.offs[n][0] + jobs.offs[n][1] * jobs.offs[n][2]));
	const n = fr.reduce((a, f) => a + f.length, 0);
	const a = o.kind === 'sub' ? new Float32Array(new ArrayBuffer(4 * n + 40), 12, n) : o.kind === 'shared' ? new Float32Array(new SharedArrayBuffer(4 * n)) : new Float32Array(n);
	let k = 0;
	for(const f of fr) { a.set(f, k); k += f.length; }
	return a;
}
class Trace {
	constructor(t) { this.t = t; this.an = {}; this.base = vp.vp_live(); }
	args(o) {
		if(typeof o.dict?.threshold === 'string') o.dict.threshold = Number(o.dict.threshold);
		const m = o.m ? R.Method.get(o.m) : o.how === 'undef' ? undefined : null;
		return o.dict === null || o.dict === undefined ? o.how === 'short' && !o.m ? [] : [m] : [m, o.dict];
	}
	bdetect(o, e) {
		const a = data(o, o.imgs);
		lists(e, R.resDetect(a, o.n, o.w, o.hh, ...this.args(o)));
	}
	bcreate(o, e) {
		this.an[o.h] = new R.Analysis(o.w, o.hh, ...this.args(o));
		if(this.an[o.h] instanceof R.Analysis === false) throw new TypeError('class');
	}
	banalyze(o, e) { if(this.an[o.h].analyzeImage(data(o, [o.img])) !== undefined) throw new TypeError('value'); }
	bresults(o, e) { lists(e, this.an[o.h].analysisResults()); }
	bdestroy(o, e) { delete this.an[o.h]; }
	async bgc(o, e) { for(let k = 0; k < 2; k++) { globalThis.gc(); await sleep(); } }
	async bleak(o, e) {
		this.an = {};
		for(let k = 0; k < 200 && vp.vp_live() !== this.base; k++) { globalThis.gc(); await sleep(); }
		e.leak = vp.vp_live() - this.base;
	}
	bmethods(o, e) {
		const same = (a, b) => b instanceof R.Method && a.name === b.name && a.threshold === b.threshold && a.rdmethod === b.rdmethod;
		e.methods = R.methods().map(m => [m.name, ppb(m.threshold), m instanceof R.Method && same(m, R.Method.get(m.name)), m.threshold > 0 && m.threshold <= 1]);
		e.nomethods = ['', 'Sign', 'sig', 'signs', 'zerox '].filter(n => R.Method.get(n) !== undefined);
		e.range = R.defaultRange();
		e.readers = [];
		e.version = R.libVersion();
		const b = new Uint8Array(vp.memory.buffer), p = vp.resdet_libversion();
		e.libversion = Buffer.from(b.slice(p, b.indexOf(0, p))).toString();
		e.js = true;
	}
	async run() {
		for(const o of this.t.ops) {
			const e = { ...o };
			for(const k of ['kind', 'dict', 'how', 'fail']) delete e[k];
			e.ret = 0;
			const live = vp.vp_live();
			let threw = false;
			if(o.fail) vp.vp_fail(o.fail);
			try { await this[o.op](o, e); }
			catch(x) { e.ret = code(x); e.why = String(x); threw = true; delete e.lw; delete e.lh; }
			if(o.fail) { e.nf = vp.vp_failed(); vp.vp_fail(0); }
			if(!e.nf && (o.op === 'bdetect' || o.op === 'bresults' || o.op === 'bcreate' && threw)) e.leak = vp.vp_live() - live;
			emit(this.t.t, e);
		}
		emit(this.t.t, { op: 'end' });
	}
}
for(const t of jobs.traces) await new Trace(t).run();
process.exit(0);
