// Stand-ins for what the VS Code extension is built on: the editor, the language client, and four packages.
// The editor's state is `world`, which the driver sets and looks at; nothing here has effects outside of it.
"use strict";
const path = require("path");
const fs = require("fs");

let world;
function setWorld(w) {
	world = w;
}

// --- what VS Code has ------------------------------------------------------------------------------------------------

class Disposable {
	constructor(f) {
		this.f = f;
	}
	static from(...all) {
		return new Disposable(() => all.forEach((d) => d.dispose()));
	}
	dispose() {
		const f = this.f;
		this.f = undefined;
		if (f) f();
	}
}

class EventEmitter {
	constructor() {
		this.listeners = [];
		this.event = (listener, self, disposables) => {
			const l = { f: self ? listener.bind(self) : listener };
			this.listeners.push(l);
			const d = new Disposable(() => {
				this.listeners = this.listeners.filter((x) => x !== l);
			});
			if (Array.isArray(disposables)) disposables.push(d);
			return d;
		};
	}
	fire(e) {
		for (const l of [...this.listeners]) {
			try {
				l.f(e);
			} catch (error) {
				world.odd.push(`listener: ${error}`);
			}
		}
	}
	dispose() {
		this.listeners = [];
	}
}

const encode = (s) => encodeURIComponent(s).replace(/[!'()*]/g, (c) => "%" + c.charCodeAt(0).toString(16).toUpperCase());
const decode = (s) => {
	try {
		return decodeURIComponent(s);
	} catch {
		return s;
	}
};
class Uri {
	constructor(scheme, authority, path, query, fragment) {
		Object.assign(this, { scheme, authority, path, query, fragment });
		Object.freeze(this);
	}
	static parse(text) {
		const m = /^(([^:/?#]+?):)?(\/\/([^/?#]*))?([^?#]*)(\?([^#]*))?(#(.*))?/.exec(text);
		return new Uri(m[2] || "file", decode(m[4] || ""), decode(m[5] || ""), decode(m[7] || ""), decode(m[9] || ""));
	}
	static file(p) {
		return new Uri("file", "", p.startsWith("/") ? p : "/" + p, "", "");
	}
	static from(c) {
		return new Uri(c.scheme, c.authority || "", c.path || "", c.query || "", c.fragment || "");
	}
	static joinPath(uri, ...parts) {
		return uri.with({ path: path.posix.join(uri.path, ...parts) });
	}
	static isUri(x) {
		return x instanceof Uri;
	}
	with(c) {
		return Uri.from({ scheme: this.scheme, authority: this.authority, path: this.path, query: this.query, fragment: this.fragment, ...c });
	}
	get fsPath() {
		return this.authority && this.scheme === "file" ? `//${this.authority}${this.path}` : this.path;
	}
	toString() {
		let s = `${this.scheme}:`;
		if (this.authority || this.scheme === "file") s += `//${encode(this.authority)}`;
		s += this.path.split("/").map(encode).join("/");
		if (this.query) s += `?${encode(this.query)}`;
		if (this.fragment) s += `#${encode(this.fragment)}`;
		return s;
	}
	toJSON() {
		return { $mid: 1, path: this.path, scheme: this.scheme };
	}
}

class Position {
	constructor(line, character) {
		Object.assign(this, { line, character });
	}
}
class Range {
	constructor(start, end) {
		Object.assign(this, { start, end });
	}
}
class Selection extends Range {
	get anchor() {
		return this.start;
	}
	get active() {
		return this.end;
	}
}

// Settings: what the extension declares, and what the editor has of its own.
const declared = () => world.declared;
const editorDefaults = { "editor.tabSize": 4, "editor.insertSpaces": true, "editor.indentSize": "tabSize", "editor.formatOnSave": false };
const copy = (x) => (x === undefined ? undefined : JSON.parse(JSON.stringify(x)));
function layersOf(scope) {
	let uri, languageId;
	if (scope instanceof Uri) uri = scope;
	else if (scope) {
		uri = scope.uri;
		languageId = scope.languageId;
	}
	let folder;
	if (uri) {
		for (const f of world.folders) {
			const root = f.uri.toString();
			if ((uri.toString() === root || uri.toString().startsWith(root + "/")) && !(folder && folder.length >= root.length)) folder = root;
		}
	}
	const of = (k) => (k === "folder" ? (folder && world.settings.folders[folder]) || {} : world.settings[k]);
	return { of, folder, languageId };
}
class Configuration {
	constructor(section, scope) {
		this.prefix = section ? section + "." : "";
		this.scope = layersOf(scope);
	}
	inspect(name) {
		const key = this.prefix + name;
		const { of, languageId } = this.scope;
		const language = (layer) => (languageId && layer[`[${languageId}]`] ? copy(layer[`[${languageId}]`][key]) : undefined);
		const defaults = { ...editorDefaults, ...declared() };
		return {
			key,
			defaultValue: copy(defaults[key]),
			globalValue: copy(of("user")[key]),
			workspaceValue: copy(of("workspace")[key]),
			workspaceFolderValue: copy(of("folder")[key]),
			globalLanguageValue: language(of("user")),
			workspaceLanguageValue: language(of("workspace")),
			workspaceFolderLanguageValue: language(of("folder")),
			languageIds: [],
		};
	}
	get(name, otherwise) {
		const i = this.inspect(name);
		for (const k of ["workspaceFolderLanguageValue", "workspaceLanguageValue", "globalLanguageValue",
			"workspaceFolderValue", "workspaceValue", "globalValue", "defaultValue"]) {
			if (i[k] !== undefined) return i[k];
		}
		return otherwise;
	}
	has(name) {
		return this.get(name) !== undefined;
	}
	async update(name, value, target) {
		const key = this.prefix + name;
		let layer;
		if (target === ConfigurationTarget.Global || target === true) layer = world.settings.user;
		else if (target === ConfigurationTarget.Workspace || target === false) layer = world.settings.workspace;
		else {
			if (!this.scope.folder) throw new Error("no folder");
			layer = world.settings.folders[this.scope.folder] ||= {};
		}
		if (value === undefined) delete layer[key];
		else layer[key] = copy(value);
		world.events.configuration.fire({ affectsConfiguration: (k) => key === k || key.startsWith(k + ".") });
	}
}

const ConfigurationTarget = { Global: 1, Workspace: 2, WorkspaceFolder: 3 };
const FileType = { Unknown: 0, File: 1, Directory: 2, SymbolicLink: 64 };
class FileSystemError extends Error {
	static FileNotFound(uri) {
		return new FileSystemError(`not found: ${uri}`);
	}
}
// The files of the workspace: path -> text, or null for a directory.
const filesystem = {
	async stat(uri) {
		const f = world.files.get(uri.path);
		if (f === undefined) throw FileSystemError.FileNotFound(uri);
		return { type: f === null ? FileType.Directory : FileType.File, size: f === null ? 0 : f.length, ctime: 0, mtime: 0 };
	},
	async readFile(uri) {
		const f = world.files.get(uri.path);
		if (f === undefined || f === null) throw FileSystemError.FileNotFound(uri);
		return new TextEncoder().encode(f);
	},
	async writeFile(uri, bytes) {
		let dir = path.posix.dirname(uri.path);
		while (dir !== "/" && !world.files.has(dir)) {
			world.files.set(dir, null);
			dir = path.posix.dirname(dir);
		}
		world.wrote.push(uri.path);
		world.files.set(uri.path, Buffer.from(bytes).toString("utf8"));
	},
	async createDirectory(uri) {
		let dir = uri.path;
		while (dir !== "/" && !world.files.has(dir)) {
			world.files.set(dir, null);
			dir = path.posix.dirname(dir);
		}
	},
	async delete(uri) {
		world.wrote.push(uri.path);
		world.files.delete(uri.path);
	},
	async readDirectory(uri) {
		const out = [];
		for (const [p, f] of world.files) if (path.posix.dirname(p) === uri.path) out.push([path.posix.basename(p), f === null ? 2 : 1]);
		return out;
	},
};

// Messages: (text, options?, ...items). The world's user answers.
function message(kind) {
	return async (text, ...rest) => {
		const options = rest.length && rest[0] && typeof rest[0] === "object" && !("title" in rest[0]) ? rest.shift() : {};
		const items = rest.map((i) => (typeof i === "string" ? i : i.title));
		const k = world.asked({ kind, text, modal: !!options.modal, items });
		return k === undefined ? undefined : rest[k];
	};
}
function channel(name) {
	const c = {
		name,
		lines: [],
		shown: 0,
		append: (s) => c.lines.push(s),
		appendLine: (s) => c.lines.push(s),
		replace: (s) => (c.lines = [s]),
		clear: () => (c.lines = []),
		show: () => c.shown++,
		hide: () => {},
		dispose: () => {},
		info: (s) => c.lines.push(s),
		warn: (s) => c.lines.push(s),
		error: (s) => c.lines.push(s),
		debug: (s) => c.lines.push(s),
		trace: (s) => c.lines.push(s),
	};
	world.channels.push(c);
	return c;
}

const vscode = {
	Disposable, EventEmitter, Uri, Position, Range, Selection, ConfigurationTarget, FileType, FileSystemError,
	ViewColumn: { Active: -1, Beside: -2, One: 1, Two: 2, Three: 3 },
	StatusBarAlignment: { Left: 1, Right: 2 },
	window: {
		get activeTextEditor() {
			return world.active;
		},
		get visibleTextEditors() {
			return world.active ? [world.active] : [];
		},
		createOutputChannel: channel,
		onDidChangeActiveTextEditor: (...a) => world.events.active.event(...a),
		onDidChangeVisibleTextEditors: (...a) => world.events.visible.event(...a),
		showErrorMessage: message("error"),
		showWarningMessage: message("warning"),
		showInformationMessage: message("information"),
		async showQuickPick(items, options) {
			items = await items;
			const k = world.asked({ kind: "pick", text: (options && options.title) || "", modal: false,
				items: items.map((i) => (typeof i === "string" ? i : i.label)) });
			return k === undefined ? undefined : items[k];
		},
		async showWorkspaceFolderPick() {
			const k = world.asked({ kind: "pick", text: "", modal: false, items: world.folders.map((f) => f.name) });
			return k === undefined ? undefined : world.folders[k];
		},
		async showTextDocument(document) {
			world.shown.push(document.uri.toString());
			return { document };
		},
		async showSaveDialog() {
			return undefined;
		},
		async withProgress(_options, task) {
			return task({ report() {} }, { isCancellationRequested: false });
		},
	},
	workspace: {
		get isTrusted() {
			return world.trusted;
		},
		get workspaceFolders() {
			return world.folders.length || world.foldersDefined ? world.folders : undefined;
		},
		get textDocuments() {
			return world.documents;
		},
		get rootPath() {
			return world.folders.length ? world.folders[0].uri.fsPath : undefined;
		},
		get name() {
			return undefined;
		},
		getWorkspaceFolder(uri) {
			const l = layersOf(uri).folder;
			return world.folders.find((f) => f.uri.toString() === l);
		},
		getConfiguration: (section, scope) => new Configuration(section, scope),
		onDidChangeConfiguration: (...a) => world.events.configuration.event(...a),
		onDidChangeTextDocument: (...a) => world.events.text.event(...a),
		onDidOpenTextDocument: (...a) => world.events.opened.event(...a),
		onDidCloseTextDocument: (...a) => world.events.closed.event(...a),
		onDidSaveTextDocument: (...a) => world.events.saved.event(...a),
		onDidChangeWorkspaceFolders: (...a) => world.events.folders.event(...a),
		onDidGrantWorkspaceTrust: (...a) => world.events.trust.event(...a),
		registerTextDocumentContentProvider(scheme, provider) {
			world.providers.set(scheme, provider);
			if (provider.onDidChange) provider.onDidChange((uri) => world.refreshed.push(uri.toString()));
			return new Disposable(() => world.providers.delete(scheme));
		},
		async openTextDocument(uri) {
			world.openedByExtension.push(uri.toString());
			const provider = world.providers.get(uri.scheme);
			const text = provider ? await provider.provideTextDocumentContent(uri, { isCancellationRequested: false }) : "";
			return { uri, languageId: "plaintext", isClosed: false, isDirty: false, isUntitled: false, fileName: uri.fsPath, getText: () => text };
		},
		fs: filesystem,
	},
	commands: {
		registerCommand(name, f) {
			if (world.commands.has(name)) world.odd.push(`command twice: ${name}`);
			world.commands.set(name, f);
			return new Disposable(() => world.commands.delete(name));
		},
		async executeCommand(name, ...args) {
			const f = world.commands.get(name);
			if (!f) throw new Error(`command '${name}' not found`);
			return f(...args);
		},
	},
	env: { appName: "stand-in", language: "en" },
	version: "1.90.0",
};

// --- the language client ---------------------------------------------------------------------------------------------

class ResponseError extends Error {
	constructor(code, text, data) {
		super(text);
		Object.assign(this, { code, data });
	}
}
class NotificationType {
	constructor(method) {
		this.method = method;
	}
}
class RequestType extends NotificationType {}
const clientState = { Stopped: 1, Running: 2, Starting: 3 };
class LanguageClient {
	constructor(id, name, serverOptions, clientOptions) {
		Object.assign(this, { id, name, serverOptions, clientOptions, state: clientState.Stopped });
		this.handlers = new Map();
		this.n = world.clients.push(this);
		this.code2ProtocolConverter = {
			asTextDocumentIdentifier: (d) => ({ uri: d.uri.toString() }),
			asPosition: (p) => ({ line: p.line, character: p.character }),
			asUri: (u) => u.toString(),
		};
		this.protocol2CodeConverter = { asUri: (u) => Uri.parse(u) };
		this.stateEmitter = new EventEmitter();
		this.onDidChangeState = this.stateEmitter.event;
	}
	get outputChannel() {
		return this.clientOptions.outputChannel;
	}
	isRunning() {
		return this.state === clientState.Running;
	}
	needsStart() {
		return this.state !== clientState.Running;
	}
	needsStop() {
		return this.state === clientState.Running;
	}
	onNotification(type, f) {
		this.handlers.set(typeof type === "string" ? type : type.method, f);
		return new Disposable(() => this.handlers.delete(typeof type === "string" ? type : type.method));
	}
	onRequest(type, f) {
		return this.onNotification(type, f);
	}
	async sendRequest(type, params) {
		world.requests.push({ client: this.n, method: typeof type === "string" ? type : type.method, params });
		return `answer ${world.requests.length}`;
	}
	async sendNotification() {}
	start() {
		const was = this.state;
		if (was !== clientState.Stopped) world.odd.push(`start of client ${this.n} that is running`);
		this.state = clientState.Starting;
		return world.pending("start", this.n).then(
			() => {
				this.state = clientState.Running;
			},
			(e) => {
				this.state = clientState.Stopped;
				throw e;
			},
		);
	}
	stop() {
		if (this.state !== clientState.Running) world.odd.push(`stop of client ${this.n} that isn't running`);
		return world.pending("stop", this.n).then(
			() => {
				this.state = clientState.Stopped;
			},
			(e) => {
				// the editor doesn't know
				this.state = clientState.Stopped;
				throw e;
			},
		);
	}
	async dispose() {
		if (this.state === clientState.Running) await this.stop();
	}
	async restart() {
		await this.stop();
		await this.start();
	}
}
const languageclient = {
	LanguageClient, ResponseError, NotificationType, RequestType, State: clientState,
	TransportKind: { stdio: 0, ipc: 1, pipe: 2, socket: 3 },
	RevealOutputChannelOn: { Info: 1, Warn: 2, Error: 3, Never: 4 },
};

// --- packages --------------------------------------------------------------------------------------------------------

class PQueue {
	constructor(options = {}) {
		this.concurrency = options.concurrency || Infinity;
		this.waiting = [];
		this.pending = 0;
		this.idle = [];
	}
	get size() {
		return this.waiting.length;
	}
	add(f) {
		return new Promise((resolve, reject) => {
			this.waiting.push(async () => {
				try {
					resolve(await f({}));
				} catch (e) {
					reject(e);
				}
			});
			this.next();
		});
	}
	addAll(fs) {
		return Promise.all(fs.map((f) => this.add(f)));
	}
	next() {
		while (this.pending < this.concurrency && this.waiting.length) {
			this.pending++;
			const f = this.waiting.shift();
			f().finally(() => {
				this.pending--;
				if (!this.pending && !this.waiting.length) this.idle.splice(0).forEach((r) => r());
				this.next();
			});
		}
	}
	clear() {
		this.waiting = [];
	}
	onIdle() {
		return this.pending || this.waiting.length ? new Promise((r) => this.idle.push(r)) : Promise.resolve();
	}
	onEmpty() {
		return this.onIdle();
	}
}
async function which(name, options = {}) {
	for (const dir of world.PATH) {
		const p = path.join(dir, name);
		if (fs.existsSync(p)) return p;
	}
	if (options.nothrow) return null;
	throw new Error(`not found: ${name}`);
}
which.sync = (name, options = {}) => {
	for (const dir of world.PATH) if (fs.existsSync(path.join(dir, name))) return path.join(dir, name);
	if (options.nothrow) return null;
	throw new Error(`not found: ${name}`);
};
const fsExtra = { ...fs, pathExists: async (p) => fs.existsSync(p), pathExistsSync: (p) => fs.existsSync(p) };
class AdmZip {
	addFile() {}
	writeZip() {}
}
// Processes are recorded, not run.
const { EventEmitter: NodeEmitter } = require("events");
function spawn(command, args, options) {
	const p = new NodeEmitter();
	const stream = () => Object.assign(new NodeEmitter(), { setEncoding() {}, resume() {} });
	p.stdout = stream();
	p.stderr = stream();
	p.stdin = { write() {}, end() {} };
	p.kill = () => {};
	world.spawned({ command, args: [...(args || [])], cwd: (options && options.cwd) || "" }, p);
	return p;
}
const childProcess = { spawn };

const modules = {
	vscode,
	"vscode-languageclient/node": languageclient,
	"vscode-languageclient": languageclient,
	"p-queue": { __esModule: true, default: PQueue },
	which,
	"fs-extra": fsExtra,
	"adm-zip": AdmZip,
	child_process: childProcess,
	"node:child_process": childProcess,
};
module.exports = { setWorld, modules, EventEmitter, Uri, Position, Selection, vscode, ResponseError };
