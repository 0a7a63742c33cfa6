/* Stands for what emcc generates: the module with the runtime methods that the bindings are built with. */
import fs from 'fs'

export default async function initModule() {
	const module = new WebAssembly.Module(fs.readFileSync(new URL('libresdet.wasm', import.meta.url)));
	const env = {};
	for(const i of WebAssembly.Module.imports(module))
		env[i.name] = Math[i.name] ?? Math[i.name.replace(/[fl]$/, '')] ?? (() => { throw new Error('missing function ' + i.name) });
	const x = new WebAssembly.Instance(module, { env }).exports;
	const view = () => new DataView(x.memory.buffer);
	const UTF8ToString = p => {
		if(!p) return '';
		const b = new Uint8Array(x.memory.buffer);
		let e = p;
		while(b[e]) e++;
		return new TextDecoder().decode(b.slice(p, e));
	};
	const getValue = (p, t = 'i8') => {
		if(t.endsWith('*')) return view().getUint32(p, true);
		switch(t) {
			case 'i1': case 'i8': return view().getInt8(p);
			case 'i16': return view().getInt16(p, true);
			case 'i32': return view().getInt32(p, true);
			case 'i64': return view().getBigInt64(p, true);
			case 'float': return view().getFloat32(p, true);
			case 'double': return view().getFloat64(p, true);
		}
		throw new Error('getValue ' + t);
	};
	const cwrap = (name, ret, args) => (...a) => {
		const tmp = [];
		const v = a.map((y, k) => {
			if(args[k] !== 'string') return y;
			if(y === null || y === undefined || y === 0) return 0;
			const s = new TextEncoder().encode(y + '\0');
			const f = x.vp_hold(0), p = x.malloc(s.length);        // on the stack in Emscripten
			x.vp_hold(f);
			new Uint8Array(x.memory.buffer).set(s, p);
			tmp.push(p);
			return p;
		});
		const r = x[name](...v);
		tmp.forEach(p => x.free(p));
		return ret === 'string' ? UTF8ToString(r) : ret === 'boolean' ? !!r : r;
	};
	/* what Emscripten replaces when the memory grows */
	const M = { cwrap, getValue, UTF8ToString, _malloc: n => x.malloc(n), _free: p => x.free(p) };
	for(const [n, T] of Object.entries({ HEAP8: Int8Array, HEAPU8: Uint8Array, HEAP16: Int16Array, HEAPU16: Uint16Array, HEAP32: Int32Array, HEAPU32: Uint32Array, HEAPF32: Float32Array, HEAPF64: Float64Array }))
		Object.defineProperty(M, n, { get: () => new T(x.memory.buffer) });
	globalThis.vp = x;
	return M;
}
