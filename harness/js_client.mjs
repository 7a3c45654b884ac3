// Drives the JavaScript client: node js_client.mjs <path to bomba.js> < cases
// Commands: desc <JSON>                  what the server describes (types, methods in the order of declaration, service)
//           load <window|node> <base>    a client of it (- is no base)
//           call <c> <path> <JSON>       arguments as tagged values
//           respond <n> <result|error|broken|lost> <JSON>   to the n-th request sent that was not responded to
//           flush
//           form <path>                  makes the form of a method (- is the whole interface, its forms are numbered on)
//           enter <f> <i> <JSON>         sets the i-th field of the f-th form (modulo their numbers)
//           press <f>
import { Worker, isMainThread, parentPort, workerData } from 'node:worker_threads';
import * as fs from 'node:fs';
import * as os from 'node:os';
import * as path from 'node:path';

const bytes = (text) => [...Buffer.from(text, 'utf8')];

// As much of a document as forms need
class Element {
	constructor(tag) {
		this.tag = tag;
		this.children = [];
		this.attributes = {};
		this.text = '';
		this.checked = false;
		this.className = '';
	}
	appendChild(child) {
		if (!(child instanceof Element)) throw new TypeError('Not a node');
		this.children.push(child);
		return child;
	}
	append(...children) {
		for (const child of children) {
			if (child instanceof Element) this.appendChild(child);
			else this.text += child;
		}
	}
	setAttribute(name, value) { this.attributes[name.toLowerCase()] = String(value); }
	toggleAttribute(name, on) { if (on) this.setAttribute(name, ''); else delete this.attributes[name]; }
	removeAttribute(name) { delete this.attributes[name.toLowerCase()]; }
	replaceChildren(...children) {
		this.textContent = '';
		this.append(...children);
	}
	get classList() { return { add: (...names) => { this.className = [this.className, ...names].join(' ').trim(); } }; }
	set innerText(value) { this.textContent = value; }
	get innerText() { return this.textContent; }
	get style() { return this.styles ??= {}; }
	get dataset() { return this.data ??= {}; }
	getAttribute(name) { return this.attributes[name.toLowerCase()] ?? null; }
	set type(value) { this.attributes.type = String(value); }
	get type() { return this.attributes.type ?? 'text'; }
	set textContent(value) {
		this.text = String(value);
		this.children = [];
	}
	get textContent() { return this.text + this.children.map((child) => child.textContent).join(''); }
	set innerHTML(value) { this.textContent = value; }
	get innerHTML() { return this.textContent; }
	set value(value) { this.entered = String(value); }
	get value() { return this.entered ?? ''; }
	get valueAsNumber() { return this.value === '' ? NaN : Number(this.value); }
	addEventListener(event, listener) { this['on' + event] = listener; }
	click() { return this.onclick?.({ target: this, preventDefault() {} }); }
	all(tag) { return [...(this.tag === tag ? [this] : []), ...this.children.flatMap((child) => child.all(tag))]; }
}
const document = { createElement(tag) {
	if (!/^[a-z_][-.\w]*$/i.test(tag)) throw new Error('InvalidCharacterError');
	return new Element(tag.toLowerCase());
} };

async function runCase(directory, lines) {
	const out = (event) => parentPort.postMessage(JSON.stringify(event));
	const settle = async () => {
		for (let i = 0; i < 4; i++)
			await new Promise((resolve) => setImmediate(resolve));
	};
	let description, module, api, types;
	const requests = [];                    // those sent and not responded to: {q, respond, fail}
	let sent = 0, loading = false;
	globalThis.fetch = globalThis.nodeFetch = (url, params) => new Promise((resolve, reject) => {
		if (loading) {
			out({ e: 'fetched', url: bytes(String(url)), get: (params?.method ?? 'GET') === 'GET' });
			resolve({ ok: true, status: 200, json: async () => describe(description), text: async () => JSON.stringify(describe(description)) });
			return;
		}
		const headers = Object.entries(params?.headers ?? {}).map(([name, value]) => name.toLowerCase() + ': ' + value);
		sent++;
		out({ e: 'sent', q: sent, url: bytes(String(url)), post: params?.method === 'POST', json: headers.some((header) => /^content-type: *application\/json/.test(header)),
				b: bytes(String(params?.body)) });
		let id = null;
		try {
			id = JSON.parse(params.body).id;
		} catch (error) {}
		requests.push({ q: sent, id, resolve, reject });
	});
	const describe = (source) => {
		const types = {}, methods = {};
		const text = (type) => type.k === 'arr' ? [text(type.of)] : { num: 'number', bool: 'boolean', str: 'string', map: 'object', cls: type.n }[type.k];
		for (const [name, members] of source.types) {
			types[name] = {};
			for (const [member, type] of members)
				types[name][member] = text(type);
		}
		for (const method of source.methods) {
			const params = {};
			for (const index of method.shuffled) {
				const [name, type, optional, doc] = method.params[index];
				params[name] = { def_order: index + 1, doc_lines: doc ? [doc] : [], type: text(type), optional };
			}
			methods[method.name] = { doc_lines: method.doc ? [method.doc] : [], params, ret_info: { doc_lines: [], type: method.ret ? text(method.ret) : null } };
		}
		return { type: 'jsonwsp/description', version: '1.0', servicename: source.service, url: 'http://example.com', types, methods };
	};
	const inBytes = (type) => type.k === 'arr' ? { k: 'arr', of: inBytes(type.of) } : type.k === 'cls' ? { k: 'cls', n: bytes(type.n) } : type;
	const make = (value) => {
		switch (value.k) {
		case 'num': return Number(value.s);
		case 'str': return value.s;
		case 'bool': return value.v;
		case 'none': return value.v ? null : undefined;
		case 'arr': return value.v.map(make);
		case 'map': return Object.fromEntries(value.v.map(([name, inside]) => [name, make(inside)]));
		case 'inst': {
			const made = new types[value.n](...value.v.slice(0, value.first).map(([, inside]) => make(inside)));
			for (const [name, inside] of value.v.slice(value.first))
				made[name] = make(inside);
			return made;
		}
		}
	};
	const record = (value) => {
		switch (value.k) {
		case 'num': return { k: 'num', b: bytes(value.s) };
		case 'str': return { k: 'str', b: bytes(value.s) };
		case 'bool': return value;
		case 'none': return { k: 'none' };
		case 'arr': return { k: 'arr', v: value.v.map(record) };
		case 'map': return { k: 'map', v: value.v.map(([name, inside]) => [bytes(name), record(inside)]) };
		case 'inst': return { k: 'inst', n: bytes(value.n), v: value.v.map(([name, inside]) => [bytes(name), record(inside)]) };
		}
	};
	const forms = [];                       // {fields, button, element, before}
	const formIn = (element) => {
		const own = { element, fields: element.all('input'), button: element.all('button')[0] };
		for (const field of own.fields)
			if (field.type === 'number') field.value = '7';
		const everything = (from) => [from, ...from.children.flatMap(everything)];
		const before = everything(element).map((each) => [each, each.text]);
		own.shown = () => {
			const old = new Map(before);
			return everything(element).map((each) => each.text === (old.get(each) ?? '') ? '' : each.text).join('');
		};
		forms.push(own);
		return own;
	};
	// What was displayed in addition to what had been there from the beginning
	const screen = () => out({ e: 'screen', texts: forms.map((form) => bytes(form.shown())) });
	const fieldKinds = (form) => form.fields.map((field) => ({ checkbox: 'bool', number: 'num', text: 'str' })[field.type] ?? field.type);
	globalThis.document = document;
	process.on('unhandledRejection', () => {});
	for (const line of lines) {
		const words = line.split(' ');
		const rest = (n) => words.slice(n).join(' ');
		if (words[0] === 'desc') {
			description = JSON.parse(rest(1));
		} else if (words[0] === 'load') {
			if (words[1] === 'window') globalThis.window = {};
			else {
				delete globalThis.window;
			}
			const base = words[2] === '-' ? undefined : words[2];
			out({ e: 'load', node: words[1] === 'node', base: bytes(base ?? ''), service: bytes(description.service),
				types: description.types.map(([name, members]) => [bytes(name), members.map(([member, type]) => [bytes(member), inBytes(type)])]),
				methods: description.methods.map((method) => ({ n: bytes(method.name), ps: method.params.map(([name, type, opt]) => ({ n: bytes(name), t: inBytes(type), o: opt })) })) });
			forms.length = 0;
			loading = true;
			try {
				module ??= await import(path.join(directory, 'bomba.mjs'));
				let service;
				[api, types, service] = await module.loadApi(base);
				out({ e: 'loaded', service: bytes(String(service)), types: Object.keys(types).map(bytes) });
			} catch (error) {
				out({ e: 'failed', why: String(error) });
				return;
			}
			loading = false;
		} else if (words[0] === 'call') {
			const args = JSON.parse(rest(3)), c = Number(words[1]);
			out({ e: 'call', c, m: bytes(words[2]), a: args.map(record) });
			let method = api;
			for (const part of words[2].split('.'))
				method = method[part];
			method(...args.map(make)).then(
				(result) => out({ e: 'settled', c, ok: true, b: bytes(String(JSON.stringify(result))) }),
				(error) => out({ e: 'settled', c, ok: false, b: bytes(String(error)) }));
		} else if (words[0] === 'respond') {
			await settle();
			if (!requests.length) continue;
			const [request] = requests.splice(Number(words[1]) % requests.length, 1);
			const content = JSON.parse(rest(3));
			out({ e: 'respond', q: request.q, kind: words[2], b: bytes(words[2] === 'error' ? content : JSON.stringify(content)) });
			const given = (value) => request.resolve({ ok: true, status: 200, json: async () => value, text: async () => JSON.stringify(value) });
			if (words[2] === 'result') given({ jsonrpc: '2.0', id: request.id, result: content });
			else if (words[2] === 'error') given({ jsonrpc: '2.0', id: request.id, error: { code: -32000, message: content } });
			else if (words[2] === 'broken') request.resolve({ ok: false, status: 500, json: async () => { throw new SyntaxError('Not JSON'); }, text: async () => '<html>Error</html>' });
			else request.reject(new TypeError('fetch failed'));
			if (forms.length) {
				await settle();
				screen();
			}
		} else if (words[0] === 'form') {
			let place = api;
			if (words[1] !== '-')
				for (const part of words[1].split('.'))
					place = place[part];
			const start = forms.length;
			try {
				const element = place.gui();
				if (words[1] !== '-') formIn(element);
				else {
					// The biggest elements that have one button only
					const search = (from) => {
						const buttons = from.all('button').length;
						if (buttons === 1) formIn(from);
						else if (buttons) from.children.forEach(search);
					};
					// (a group of one method has one button only, too)
					search(element);
				}
			} catch (error) {
				out({ e: 'failed', why: String(error) });
				return;
			}
			out({ e: 'form', m: words[1] === '-' ? [] : bytes(words[1]), forms: forms.slice(start).map(fieldKinds) });
		} else if (words[0] === 'enter') {
			if (!forms.length) continue;
			const f = Number(words[1]) % forms.length, form = forms[f];
			if (!form.fields.length) continue;
			const i = Number(words[2]) % form.fields.length, field = form.fields[i];
			const given = JSON.parse(rest(3));
			if (field.type === 'checkbox') {
				field.checked = given.bool;
				out({ e: 'enter', f: f + 1, i: i + 1, v: { k: 'bool', v: given.bool } });
			} else {
				const kind = field.type === 'number' ? 'num' : 'str';
				field.value = given[kind];
				out({ e: 'enter', f: f + 1, i: i + 1, v: { k: kind, b: bytes(given[kind]) } });
			}
		} else if (words[0] === 'press') {
			if (!forms.length) continue;
			const f = Number(words[1]) % forms.length;
			await settle();
			out({ e: 'press', f: f + 1 });
			if (!forms[f].button) {
				out({ e: 'failed', why: 'no button' });
				return;
			}
			forms[f].button.click();
			await settle();
			screen();
		} else if (words[0] === 'flush') {
			await settle();
			out({ e: 'quiet' });
		}
	}
	await settle();
	out({ e: 'quiet' });
}

if (isMainThread) {
	const scratch = fs.mkdtempSync(path.join(os.tmpdir(), 'jsclient'));
	fs.copyFileSync(process.argv[2], path.join(scratch, 'bomba.mjs'));
	fs.mkdirSync(path.join(scratch, 'node_modules', 'node-fetch'), { recursive: true });
	fs.writeFileSync(path.join(scratch, 'node_modules', 'node-fetch', 'package.json'), '{"name": "node-fetch", "type": "module", "main": "index.js"}');
	fs.writeFileSync(path.join(scratch, 'node_modules', 'node-fetch', 'index.js'), 'export default (...args) => globalThis.nodeFetch(...args);\n');
	const cases = [];
	for (const line of fs.readFileSync(0, 'utf8').split('\n')) {
		if (line.startsWith('case ')) cases.push({ id: line.slice(5), lines: [] });
		else if (line !== 'end' && line) cases[cases.length - 1].lines.push(line);
	}
	let hangs = 0;
	for (const { id, lines } of cases) {
		const events = [JSON.stringify({ e: 'begin', c: id })];
		if (hangs >= 3) events.push('{"e":"skipped"}');
		else await new Promise((resolve) => {
			const worker = new Worker(new URL(import.meta.url), { workerData: { scratch, lines } });
			let finished = false;
			const finish = (event) => {
				if (finished) return;
				finished = true;
				clearTimeout(timer);
				if (event) events.push(JSON.stringify(event));
				worker.terminate().then(resolve);
			};
			const timer = setTimeout(() => { hangs++; finish({ e: 'hang' }); }, 1000 * Number(process.env.VH_CASE_TIMEOUT ?? 20));
			worker.on('message', (event) => event === 'done' ? finish() : events.push(event));
			worker.on('error', (error) => finish({ e: 'crash', why: String(error) }));
			worker.on('exit', () => finish({ e: 'crash', why: 'exit' }));
		});
		fs.writeSync(1, events.join('\n') + '\n');
	}
	fs.rmSync(scratch, { recursive: true });
} else {
	await runCase(workerData.scratch, workerData.lines);
	parentPort.postMessage('done');
}
