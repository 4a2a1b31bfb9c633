// Random conversations of an editor with the extension.
"use strict";

function random(seed) {
	let h = 1779033703;
	for (const c of seed) h = Math.imul(h ^ c.charCodeAt(0), 3432918353), (h = (h << 13) | (h >>> 19));
	return () => {
		h = (h + 0x6d2b79f5) | 0;
		let t = Math.imul(h ^ (h >>> 15), 1 | h);
		t = (t + Math.imul(t ^ (t >>> 7), 61 | t)) ^ t;
		return ((t ^ (t >>> 14)) >>> 0) / 4294967296;
	};
}

const BINARIES = ["~/bundled/bin/air", "~/e1/air", "~/e2/air", "~/p/air", "~/p q/air-dev"];
const PLACES = [["w", "a"], ["w", "ab"], ["w", "a", "in"], ["w", "b c"], ["w", "long-one"], ["w", "e e"]];
const RBUILD = ["^\\.vscode$", "^[.]?air[.]toml$"];

function generate(profile, seed) {
	const rnd = random(`${profile}-${seed}`);
	for (let i = 0; i < 5; i++) rnd();
	const below = (n) => Math.floor(rnd() * n);
	const pick = (a) => a[below(a.length)];
	const often = (p) => rnd() < p;
	const some = (a, p) => a.filter(() => often(p));
	const shuffled = (a) => a.map((x) => [rnd(), x]).sort((x, y) => x[0] - y[0]).map((x) => x[1]);
	const is = (...p) => p.includes(profile);

	const folders = (n) => {
		const names = pick([["a", "ab", "in", "b", "l", "e"], ["a", "a", "a", "b", "b", "a"]]);
		const fs = shuffled(PLACES.map((path, i) => ({ name: names[i], path }))).slice(0, n).map((f) => ({ ...f, there: often(is("folders", "binary") ? 0.7 : 0.95) }));
		// what is there is inside of what is there
		const inside = (f, g) => f !== g && f.path.every((c, i) => g.path[i] === c);
		return fs.map((f) => ({ ...f, there: f.there || fs.some((g) => g.there && inside(f, g)) }));
	};
	const nfolders = () => (is("folders", "commands") ? pick([0, 1, 2, 2, 3, 3, 4]) : pick([0, 1, 1, 2, 3]));
	const where = () => pick(["user", "workspace", "folder"]);
	const settings = () => {
		const key = pick(
			is("lifecycle") ? ["air.addExecutableToTerminalPath", "air.addExecutableToTerminalPath", "air.executableStrategy"]
				: is("binary") ? ["air.executableStrategy", "air.executablePath"]
				: is("folders") ? ["air.logLevel", "air.dependencyLogLevels", "air.executableStrategy", "air.executablePath", "air.addExecutableToTerminalPath"]
				: is("configuration", "sync") ? ["editor.tabSize", "editor.insertSpaces", "editor.indentSize", "[r]editor.tabSize", "[r]editor.insertSpaces",
					"[quarto]editor.tabSize", "air.syncFileSettingsWithClient", "[r]editor.indentSize"]
				: ["[r]editor.tabSize", "[r]editor.formatOnSave", "[quarto]editor.defaultFormatter", "editor.formatOnSave", "[r]editor.defaultFormatter", "air.logLevel"],
		);
		const bare = key.replace(/^\[\w+\]/, "");
		const values = {
			"air.addExecutableToTerminalPath": ["true", "false", "false"],
			"air.executableStrategy": ["bundled", "environment", "path", "path"],
			"air.executablePath": ["~/p/air", "~/p q/air-dev", "~/p/none", "~/e2/air"],
			"air.logLevel": ["error", "info", "debug", "trace"],
			"air.dependencyLogLevels": ["a=info", "b=debug,c=trace"],
			"air.syncFileSettingsWithClient": ["true", "false"],
			"editor.tabSize": ["2", "3", "8"], "editor.indentSize": ["1", "5", "tabSize"], "editor.insertSpaces": ["true", "false"],
			"editor.formatOnSave": ["true", "false"], "editor.defaultFormatter": ["someone.else", "Posit.air-vscode"],
		};
		const s = { layer: where(), key, value: pick(values[bare]), folder: pick(PLACES) };
		if (s.layer !== "folder") s.folder = [];
		return s;
	};
	const fs = folders(nfolders());
	const under = () => (fs.length && often(0.8) ? pick(fs).path : pick(PLACES));
	const docs = [];
	const ndocs = is("lifecycle", "binary", "folders") ? 1 : 2 + below(4);
	for (let i = 0; i < ndocs; i++) {
		const kind = pick(["file", "file", "file", "file", "untitled", "untitled-under", "cell"]);
		const d = { scheme: kind === "cell" ? "vscode-notebook-cell" : kind.slice(0, 8) === "untitled" ? "untitled" : "file", rooted: kind !== "untitled",
			path: kind === "untitled" ? [`Untitled-${i}`] : [...under(), ...some(["sub dir"], 0.3), pick([`x${i}.R`, `y (${i}).R`, `å'${i}!.R`])],
			fragment: kind === "cell" ? `c${i}` : "" };
		// the same place as another's, with another scheme
		if (i && d.rooted && often(0.2)) d.path = docs[0].rooted ? docs[0].path : d.path;
		if (docs.some((e) => e.scheme === d.scheme && JSON.stringify(e.path) === JSON.stringify(d.path) && e.fragment === d.fragment)) continue;
		docs.push({ ...d, language: pick(["r", "r", "r", "quarto", "plaintext"]), dirty: often(is("commands") ? 0.5 : 0.2), closed: often(0.1), saves: often(0.85),
			open: often(0.85), spaces: often(0.5) });
	}
	const files = [];
	for (const f of fs) {
		if (!f.there) continue;
		const text = (name, lines, p = 0.3) => {
			if (often(p)) files.push({ path: [...f.path, ...name], lines, crlf: often(0.3), final: lines.length > 0 && (often(0.7) || lines[lines.length - 1] === "") });
		};
		text(["air.toml"], pick([[], ["[format]", "line-width = 20"]]));
		text([".air.toml"], []);
		text([".vscode", "extensions.json"], ["{ }"]);
		text([".Rbuildignore"], shuffled([...some(RBUILD, 0.4), ...some(["^renv$", "^.vscode$", "air.toml", "^[.]?air[.]toml$x", " ^\\.vscode$"], 0.3), ...some([""], 0.2)]), 0.7);
	}
	const setup = {
		trusted: often(is("binary") ? 0.75 : 0.95), defined: fs.length > 0 || often(0.5),
		binaries: some(BINARIES, is("binary") ? 0.5 : is("commands", "configuration", "sync", "views") ? 1 : 0.85),
		PATH: pick([["~/e1", "~/e2"], ["~/e2", "~/e1"], ["~/e2"], [], ["~/none", "~/e1"]]),
		folders: fs, settings: [], docs, files,
	};
	for (let i = below(is("binary", "folders", "configuration", "sync") ? 6 : 3); i > 0; i--) setup.settings.push(settings());

	// Those that need a server get one.
	const served = is("configuration", "sync", "commands", "views");
	let left = is("lifecycle", "binary", "folders") ? 8 + below(14) : 4 + below(12);
	let id = 0;
	let told = false; // of settings, since the start
	let tellNext = false;
	function other() {
		const k = rnd();
		if (k < 0.4) return settings2();
		if (k < 0.5 && !setup.trusted) return { op: "trust" };
		if (k < 0.75) return { op: "file", path: pick(BINARIES), there: often(0.6) };
		return { op: "folders", folders: folders(nfolders()) };
	}
	function settings2() {
		const s = settings();
		return { op: "setting", ...s, value: often(0.25) ? "none" : s.value };
	}
	const sync = () => ({ op: "sync", files: shuffled(docs.map((_, i) => i + 1)).slice(0, below(docs.length + 1)).map((doc) => ({ doc, style: pick(["space", "tab"]), width: pick([1, 2, 3, 4, 6, 8, 24]) })) });
	function next(last) {
		if (!last) return undefined;
		// Everything that is under way ends before the conversation does.
		if (left-- <= 0) return last.pending.length && left > -60 ? { op: "settle", ok: often(0.8) } : undefined;
		if (served && last.pending.length) return { op: "settle", ok: true };
		if (served && !last.client) {
			tellNext = true;
			if (is("commands", "views") && often(0.2)) tellNext = false;
			else return { op: "start", id: ++id };
		}
		const r = rnd();
		switch (profile) {
			case "lifecycle":
			case "binary":
			case "folders": {
				if (last.pending.length && r < 0.45) return { op: "settle", ok: often(0.75) };
				if (r < (profile === "lifecycle" ? 0.8 : 0.7)) return { op: pick(["start", "stop", "restart", "restart"]), id: ++id };
				if (r < 0.82 && profile === "lifecycle") return { op: "deactivate" };
				return other();
			}
			case "configuration": {
				if (r < 0.6) {
					return { op: "configuration", fails: often(0.05), items: Array.from({ length: below(5) }, () => ({
						section: pick(["editor.tabSize", "editor.insertSpaces", "editor.indentSize", "editor.tabSize", "air.syncFileSettingsWithClient", "air.none", ""]),
						doc: often(0.15) ? 0 : 1 + below(docs.length) })) };
				}
				if (r < 0.85) return settings2();
				return document();
			}
			case "sync": {
				if (tellNext || r < 0.35) {
					tellNext = false;
					return sync();
				}
				if (r < 0.75) return { op: "active", doc: often(0.1) ? 0 : 1 + below(docs.length) };
				if (r < 0.95) return settings2();
				tellNext = true;
				return { op: "restart", id: ++id };
			}
			case "commands": {
				if (r < 0.6) {
					return { op: "command", id: ++id, command: pick(["Formatting", "Initialization", "Initialization"]), pick: often(0.1) ? 0 : 1 + below(4),
						save: pick(["Yes", "Yes", "Yes", "No", ""]), after: often(0.5), run: pick(["ok", "ok", "ok", "fails", "error", "both", "killed"]), logs: pick(["Yes", "No", ""]) };
				}
				if (r < 0.7) return settings2();
				if (r < 0.75) return { op: pick(["restart", "stop"]), id: ++id };
				if (r < 0.8) return { op: "folders", folders: folders(nfolders()) };
				return document();
			}
			case "views": {
				if (r < 0.4) return { op: "view", id: ++id, command: pick(["viewTreeSitter", "viewSyntaxTree", "viewFormatTree", "viewFileRepresentations", "saveFileRepresentations"]) };
				if (r < 0.6) return { op: "typed", doc: 1 + below(docs.length) };
				if (r < 0.9) return { op: "active", doc: often(0.15) ? 0 : 1 + below(docs.length) };
				return { op: pick(["restart", "stop"]), id: ++id };
			}
		}
		return undefined;
	}
	function document() {
		return { op: "document", n: 1 + below(docs.length), open: often(0.8), closed: often(0.1), dirty: often(0.5), saves: often(0.85) };
	}
	return { setup, next };
}
module.exports = { generate };
