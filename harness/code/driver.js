// Drives the VS Code extension (editors/code/src) through what the editor sees of it, and writes what it does.
//   node driver.js REPO SCRATCH traces PROFILE N SHARD    conversations, one per line
//   node driver.js REPO SCRATCH replay FILE               cases of the specification: those that go differently
"use strict";
const fs = require("fs");
const path = require("path");
const Module = require("module");
const { Worker } = require("worker_threads");
const stubs = require("./stubs.js");

const [REPO, SCRATCH, MODE, ...ARGS] = process.argv.slice(2);
const BUNDLE = path.join(SCRATCH, "dist", "extension.js");
// Nothing of this sandbox is to matter.
const WORK = path.join(SCRATCH, "here");
for (const d of ["dist", "here", "bundled/bin", "e1", "e2", "p", "p q"]) fs.mkdirSync(path.join(SCRATCH, d), { recursive: true });
process.chdir(WORK);
const long = (p) => (typeof p === "string" && p.startsWith("~") ? SCRATCH + p.slice(1) : p);
const short = (p) => (typeof p === "string" ? p.split(SCRATCH).join("~") : p);

require("/opt/veriftools/node/node_modules/esbuild").buildSync({
	entryPoints: [path.join(REPO, "editors/code/src/extension.ts")],
	bundle: true, platform: "node", format: "cjs", packages: "external", outfile: BUNDLE, logLevel: "error",
});
const load = Module._load;
Module._load = (name, ...rest) => (name in stubs.modules ? stubs.modules[name] : load(name, ...rest));
const manifest = JSON.parse(fs.readFileSync(path.join(REPO, "editors/code/package.json"), "utf8")).contributes;
const declared = {};
for (const [k, v] of Object.entries(manifest.configuration.properties)) declared[k] = v.default;

const beat = new Int32Array(new SharedArrayBuffer(4));
new Worker(`const { workerData: b } = require("worker_threads"); let was = 0, since = Date.now();
	setInterval(() => { if (b[0] !== was) { was = b[0]; since = Date.now(); } else if (Date.now() - since > 60000) process.kill(process.pid, "SIGKILL"); }, 500);`,
	{ eval: true, workerData: beat }).unref();
process.on("unhandledRejection", () => {});

const text = (v) => (v === undefined ? "none" : typeof v === "string" ? short(v) : JSON.stringify(v));
const value = (t) => {
	if (t === "none") return undefined;
	try {
		return JSON.parse(t);
	} catch {
		return long(t);
	}
};
const sleep = (ms) => new Promise((r) => setTimeout(r, ms));
async function flush() {
	for (let i = 0; i < 3; i++) {
		for (let k = 0; k < 4; k++) await new Promise((r) => setImmediate(r));
		await fs.promises.stat(SCRATCH);
	}
}

// An URL as the server spells it, which isn't quite how the editor does.
const pathOf = (d) => (d.rooted ? SCRATCH + "/" : "") + d.path.join("/");
const spelled = (d) => `${d.scheme}:${d.scheme === "file" ? "//" : ""}${encodeURI(pathOf(d))}${d.fragment ? "#" + d.fragment : ""}`;

class Episode {
	// `setup`: {trusted, binaries, PATH, folders: [{name, path, there}], defined, settings, docs, files}
	constructor(setup) {
		this.setup = setup;
		const uriOf = (p) => stubs.Uri.file(SCRATCH + "/" + p.join("/"));
		this.uriOf = uriOf;
		this.out = { settled: [], events: [], clients: [] };
		this.calls = [];
		this.script = {};
		const w = (this.w = {
			trusted: setup.trusted, folders: [], foldersDefined: setup.defined,
			settings: { user: {}, workspace: {}, folders: {} }, declared, files: new Map(), wrote: [], documents: [], active: undefined,
			events: {}, providers: new Map(), refreshed: [], shown: [], openedByExtension: [], commands: new Map(), channels: [],
			clients: [], requests: [], odd: [], PATH: setup.PATH.map(long), saved: [], asks: [], ran: [],
			asked: (q) => this.asked(q),
			pending: (kind, n) => new Promise((resolve, reject) => this.calls.push({ kind, n, resolve, reject })),
			spawned: (p, process) => this.spawned(p, process),
		});
		for (const e of ["configuration", "active", "visible", "text", "opened", "closed", "saved", "folders", "trust"]) w.events[e] = new stubs.EventEmitter();
		stubs.setWorld(w);
		for (const b of ["~/bundled/bin/air", "~/e1/air", "~/e2/air", "~/p/air", "~/p q/air-dev"]) this.file(b, setup.binaries.includes(b));
		fs.rmSync(path.join(WORK, "w"), { recursive: true, force: true });
		fs.rmSync(path.join(SCRATCH, "w"), { recursive: true, force: true });
		fs.mkdirSync(path.join(SCRATCH, "w"));
		this.setFolders(setup.folders);
		for (const s of setup.settings) this.setting(s);
		this.docs = setup.docs.map((d, i) => {
			const uri = stubs.Uri.from({ scheme: d.scheme, path: pathOf(d), fragment: d.fragment });
			const doc = {
				uri, languageId: d.language, isDirty: d.dirty, isClosed: d.closed, isUntitled: d.scheme === "untitled", fileName: uri.fsPath,
				saves: d.saves,
				getText: () => "",
				save: async () => {
					w.saved.push(i + 1);
					if (doc.saves) doc.isDirty = false;
					return doc.saves;
				},
			};
			const editor = {
				document: doc, selection: new stubs.Selection(new stubs.Position(i + 1, 0), new stubs.Position(i, 2 * i)),
				options: { insertSpaces: d.spaces, tabSize: 8, indentSize: 8, cursorStyle: 1 },
			};
			return { doc, editor, open: d.open };
		});
		this.listDocuments();
		for (const f of setup.files) {
			const p = SCRATCH + "/" + f.path.join("/");
			w.files.set(p, f.lines.map((l, i) => l + (i + 1 < f.lines.length || f.final ? (f.crlf ? "\r\n" : "\n") : "")).join(""));
		}
	}
	setFolders(folders) {
		this.folders = folders;
		this.w.folders = folders.map((f, index) => ({ name: f.name, index, uri: this.uriOf(f.path) }));
		for (const f of folders) {
			const p = SCRATCH + "/" + f.path.join("/");
			if (f.there) fs.mkdirSync(p, { recursive: true });
			else fs.rmSync(p, { recursive: true, force: true });
			if (f.there) this.w.files.set(p, null);
		}
		// removing one may have removed others inside of it
		for (const f of folders) if (f.there) fs.mkdirSync(SCRATCH + "/" + f.path.join("/"), { recursive: true });
	}
	listDocuments() {
		this.w.documents = this.docs.filter((d) => d.open).map((d) => d.doc);
	}
	file(p, there) {
		if (there) fs.writeFileSync(long(p), "");
		else fs.rmSync(long(p), { force: true });
	}
	layer(s) {
		if (s.layer !== "folder") return this.w.settings[s.layer];
		return (this.w.settings.folders[this.uriOf(s.folder).toString()] ||= {});
	}
	setting(s) {
		let l = this.layer(s);
		let key = s.key;
		const m = /^(\[\w+\])(.+)$/.exec(key);
		if (m) {
			l = l[m[1]] ||= {};
			key = m[2];
		}
		if (s.value === "none") delete l[key];
		else l[key] = value(s.value);
		return m ? m[2] : key;
	}
	// The user's answers
	asked(q) {
		this.w.asks.push({ kind: q.kind, modal: q.modal, items: q.kind === "pick" ? q.items : [], choices: q.items.length });
		let answer = "";
		if (q.kind === "pick") return this.script.pick ? this.script.pick - 1 : undefined;
		if (q.kind === "error" || !q.items.length) return undefined;
		if (q.modal) answer = this.w.ran.length ? this.script.logs : this.script.save;
		else return this.script.after ? 0 : undefined;
		const k = q.items.indexOf(answer);
		return k < 0 ? undefined : k;
	}
	spawned(p, process) {
		this.w.ran.push({ command: short(p.command), args: p.args.map(short), cwd: short(p.cwd) });
		const run = this.script.run || "ok";
		setImmediate(() => {
			process.stdout.emit("data", "some\n");
			process.stderr.emit("data", "thing\n");
			if (run === "error") process.emit("error", new Error("can't run"));
			if (run === "both") {
				process.emit("error", new Error("can't run"));
				process.emit("close", -2);
			} else if (run !== "error") process.emit("close", run === "ok" ? 0 : run === "killed" ? null : 1);
		});
	}
	settled(id, promise) {
		promise.then(
			() => this.out.settled.push({ id, ok: true }),
			() => this.out.settled.push({ id, ok: false }),
		);
	}
	async step(op) {
		beat[0]++;
		const w = this.w;
		Object.assign(this.out, { settled: [], events: [] });
		const clients = w.clients.length;
		Object.assign(w, { asks: [], ran: [], saved: [], requests: [], refreshed: [], shown: [], wrote: [], odd: [] });
		const shown = w.channels.reduce((n, c) => n + c.shown, 0);
		let extra = {};
		switch (op.op) {
			case "activate": {
				this.PATH = new Map();
				const mutated = (kind) => (name, v, options) => this.PATH.set(name, { kind, value: v, ...(options || { applyAtProcessCreation: true }) });
				this.context = {
					subscriptions: [], extensionPath: SCRATCH, extensionUri: stubs.Uri.file(SCRATCH),
					environmentVariableCollection: {
						persistent: true, description: "", prepend: mutated("prepend"), append: mutated("append"), replace: mutated("replace"),
						get: (n) => this.PATH.get(n), delete: (n) => this.PATH.delete(n), clear: () => this.PATH.clear(),
						forEach: (f) => this.PATH.forEach((v, k) => f(k, v)), getScoped: () => this.context.environmentVariableCollection,
					},
				};
				delete require.cache[require.resolve(BUNDLE)];
				this.extension = require(BUNDLE);
				this.api = this.extension.activate(this.context);
				this.lsp = this.api.__private.ctx.lsp;
				this.lsp.onStateChange((e) =>
					this.out.events.push({ state: e.state, binary: e.state === "started" ? short(e.binaryPath) : "",
						folder: e.state === "started" ? short(e.workspaceFolder.uri.fsPath) : "" }));
				if (this.context.environmentVariableCollection.persistent !== false) w.odd.push("the PATH outlives the session");
				for (const c of manifest.commands) if (!w.commands.has(c.command)) w.odd.push(`no command ${c.command}`);
				break;
			}
			case "start":
				this.settled(op.id, this.lsp.start());
				break;
			case "stop":
				this.settled(op.id, this.lsp.stop());
				break;
			case "restart":
				this.settled(op.id, stubs.vscode.commands.executeCommand("air.restart"));
				break;
			case "deactivate":
				this.extension.deactivate();
				break;
			case "settle": {
				const c = this.calls.shift();
				if (!c) w.odd.push("nothing is pending");
				else if (op.ok) c.resolve();
				else c.reject(new Error("refused"));
				break;
			}
			case "setting": {
				const key = this.setting(op);
				w.events.configuration.fire({ affectsConfiguration: (k) => key === k || key.startsWith(k + ".") });
				break;
			}
			case "trust":
				w.trusted = true;
				w.events.trust.fire();
				break;
			case "file":
				this.file(op.path, op.there);
				break;
			case "folders": {
				const was = w.folders;
				this.setFolders(op.folders);
				w.events.folders.fire({ added: w.folders, removed: was });
				break;
			}
			case "document": {
				const d = this.docs[op.n - 1];
				d.open = op.open;
				Object.assign(d.doc, { isDirty: op.dirty, isClosed: op.closed, saves: op.saves });
				this.listDocuments();
				break;
			}
			case "configuration": {
				const client = w.clients[w.clients.length - 1];
				const items = op.items.map((i) => ({
					...(i.section ? { section: i.section } : {}),
					...(i.doc ? { scopeUri: spelled(this.setup.docs[i.doc - 1]) } : {}),
				}));
				const plain = op.items.map((i, k) => `next ${k + 1}`);
				const next = async () => (op.fails ? new stubs.ResponseError(-1, "no") : plain);
				const got = await client.clientOptions.middleware.workspace.configuration({ items }, { isCancellationRequested: false }, next);
				extra.got = got instanceof stubs.ResponseError ? ["error"] : Array.from(got, text);
				if (w.openedByExtension.length) w.odd.push("a document is opened");
				break;
			}
			case "sync": {
				const client = w.clients[w.clients.length - 1];
				client.handlers.get("air/syncFileSettings")({
					file_settings: op.files.map((f) => ({ url: spelled(this.setup.docs[f.doc - 1]),
						format: { indent_style: f.style, indent_width: f.width, line_width: 80 } })),
				});
				break;
			}
			case "active":
				w.active = op.doc ? this.docs[op.doc - 1].editor : undefined;
				w.events.active.fire(w.active);
				break;
			case "typed":
				w.events.text.fire({ document: this.docs[op.doc - 1].doc, contentChanges: [] });
				await sleep(30);
				break;
			case "view": {
				w.openedByExtension = [];
				this.settled(op.id, stubs.vscode.commands.executeCommand(`air.${op.command}`));
				break;
			}
			case "command": {
				this.script = op;
				this.settled(op.id, stubs.vscode.commands.executeCommand(`air.workspaceFolder${op.command}`));
				for (let i = 0; i < 4; i++) await flush();
				break;
			}
			default:
				throw new Error(`what is ${op.op}?`);
		}
		await flush();
		const attempt = (f) => {
			try {
				return f();
			} catch {
				return undefined;
			}
		};
		const client = attempt(() => this.api.__private.ctx.getClient());
		const PATH = this.PATH.get("PATH");
		for (const k of this.PATH.keys()) if (k !== "PATH") w.odd.push(`variable ${k}`);
		if (PATH && (PATH.kind !== "prepend" || PATH.applyAtProcessCreation || !PATH.applyAtShellIntegration)) w.odd.push("how PATH is changed");
		const o = {
			settled: this.out.settled, events: this.out.events,
			clients: w.clients.slice(clients).map((c) => ({
				command: short(c.serverOptions.command), args: c.serverOptions.args, n: c.n,
				logLevel: text((c.clientOptions.initializationOptions || {}).logLevel),
				dependencyLogLevels: text((c.clientOptions.initializationOptions || {}).dependencyLogLevels),
			})),
			pending: this.calls.map((c) => ({ kind: c.kind, n: c.n })),
			client: client ? client.n : 0,
			binary: short(attempt(() => this.lsp.getBinaryPath())) || "",
			path: PATH ? short(PATH.value) : "",
			odd: w.odd.map(String),
			...extra,
		};
		if (["sync", "active"].includes(op.op)) o.editors = this.docs.map((d) => this.options(d.editor.options));
		if (["view", "typed", "active"].includes(op.op)) {
			o.requests = w.requests.map((r) => ({ client: r.client, method: r.method, uri: short(decodeURIComponent(r.params.textDocument.uri)),
				line: r.params.position.line, character: r.params.position.character, kind: r.params.kind }));
			o.refreshed = w.refreshed;
			o.shown = w.shown;
		}
		if (op.op === "command") {
			Object.assign(o, { asks: w.asks, saved: w.saved, ran: w.ran, logs: w.channels.reduce((n, c) => n + c.shown, 0) - shown,
				wrote: w.wrote.map(short), files: this.files(), settings: this.settings() });
		}
		return o;
	}
	options(o) {
		return { insertSpaces: text(o.insertSpaces), tabSize: text(o.tabSize), indentSize: text(o.indentSize), cursorStyle: text(o.cursorStyle) };
	}
	files() {
		const out = [];
		for (const [p, f] of this.w.files) {
			if (f === null) continue;
			let lines, crlf = false, final = false;
			if (p.endsWith("/extensions.json") && f.includes("recommendations")) lines = JSON.parse(f).recommendations;
			else {
				crlf = f.includes("\r\n");
				lines = f.split(crlf ? "\r\n" : "\n");
				final = lines.length > 1 && lines[lines.length - 1] === "";
				if (final) lines.pop();
				if (f === "") lines = [];
			}
			out.push({ path: p.slice(SCRATCH.length + 1).split("/"), lines, crlf, final });
		}
		return out;
	}
	settings() {
		const out = [];
		const layer = (name, folder, l) => {
			for (const [k, v] of Object.entries(l)) {
				if (k.startsWith("[")) for (const [k2, v2] of Object.entries(v)) out.push({ layer: name, folder, key: k + k2, value: text(v2) });
				else out.push({ layer: name, folder, key: k, value: text(v) });
			}
		};
		layer("user", [], this.w.settings.user);
		layer("workspace", [], this.w.settings.workspace);
		for (const [uri, l] of Object.entries(this.w.settings.folders)) layer("folder", stubs.Uri.parse(uri).path.slice(SCRATCH.length + 1).split("/"), l);
		return out;
	}
}

module.exports = { Episode };

async function main() {
	if (MODE === "traces") {
		const { generate } = require("./generate.js");
		const [profile, n, shard] = ARGS;
		for (let i = 0; i < +n; i++) {
			const { setup, next } = generate(profile, `${process.env.VERIF_SEED || 1}-${shard}-${i}`);
			fs.writeSync(2, `AT ${profile} ${shard} ${i}\n`);
			const ep = new Episode(setup);
			const events = [];
			for (let op = { op: "activate" }, last; op; op = next(last, ep)) {
				last = await ep.step(op);
				events.push({ op, out: last });
			}
			console.log(JSON.stringify({ setup, events }));
		}
	} else {
		let i = 0;
		for (const line of fs.readFileSync(ARGS[0], "utf8").split("\n").filter(Boolean)) {
			const c = JSON.parse(line);
			fs.writeSync(2, `AT ${JSON.stringify(c.setup)}\n`);
			const ep = new Episode(c.setup);
			for (const { op, out } of c.hist) {
				const got = await ep.step(op);
				const differs = Object.keys(out).filter((k) => !same(k, out[k], got[k]));
				if (differs.length) {
					console.log(JSON.stringify({ case: c, at: op, differs, expected: out, got }));
					break;
				}
			}
			i++;
		}
		fs.writeSync(2, `DONE ${i}\n`);
	}
	process.exit(0);
}
// These have no order.
const UNORDERED = ["files", "settings", "wrote", "refreshed", "saved"];
function same(k, a, b) {
	if (!UNORDERED.includes(k) || !Array.isArray(b)) return canonical(a) === canonical(b);
	const sorted = (x) => x.map(canonical).sort().join();
	return sorted(a) === sorted(b);
}
function canonical(x) {
	if (Array.isArray(x)) return `[${x.map(canonical).join(",")}]`;
	if (x && typeof x === "object") return `{${Object.keys(x).sort().map((k) => `${k}:${canonical(x[k])}`).join(",")}}`;
	return JSON.stringify(x);
}
if (require.main === module) main().catch((e) => {
	console.error(e.stack);
	process.exit(101);
});
