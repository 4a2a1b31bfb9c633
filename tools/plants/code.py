"""Bugs in the VS Code extension."""
SRC = "editors/code/src/"

BASE = """
const A = { name: "a", path: ["w", "a"], there: true };
const file = (path, more) => ({ scheme: "file", rooted: true, path, fragment: "", language: "r", dirty: false, closed: false, saves: true, open: true, spaces: true, ...more });
const world = (more) => ({ trusted: true, defined: true, binaries: ["~/bundled/bin/air", "~/e1/air", "~/p/air"], PATH: ["~/e1"], folders: [A], settings: [],
    docs: [file(["w", "a", "x.R"])], files: [], ...more });
const user = (key, value) => ({ layer: "user", folder: [], key, value });
const own = (folder, key, value) => ({ layer: "folder", folder, key, value });
const activate = { op: "activate" };
const ok = { op: "settle", ok: true };
const not = { op: "settle", ok: false };
// What is seen at the last step
async function last(setup, ...ops) {
    const e = new Episode(setup);
    let out;
    for (const op of ops) {
        out = await e.step(op);
        assert.deepStrictEqual(out.odd, []);
    }
    return out;
}
const command = (command, more) => ({ op: "command", id: 9, command, pick: 1, save: "Yes", after: false, run: "ok", logs: "", ...more });
"""


def main(body):
    return BASE + "(async () => {" + body.rstrip() + "\n    process.exit(0);\n})().catch((e) => {\n    console.error(e);\n    process.exit(1);\n});\n"


BUGS = [
    dict(id="V01-stop-gives-up", property="V01", area="code",
         edits=[(SRC + "lsp.ts", """		try {
			await this.client?.stop();
		} finally {
""", """		await this.client?.stop();
		{
""")],
         needs="a server that can't be stopped",
         breaks="the session counts as started for ever, and a restart fails again and again",
         main=main("""
    const out = await last(world(), activate, ok, { op: "stop", id: 1 }, not);
    assert.strictEqual(out.client, 0);
    assert.strictEqual(out.path, "");
    const again = await last(world(), activate, ok, { op: "restart", id: 1 }, not, { op: "restart", id: 2 }, ok);
    assert.strictEqual(again.client, 2);""")),
    dict(id="V01-restart-in-two", property="V01", area="code",
         edits=[(SRC + "lsp.ts", "		await this.stateQueue.add(async () => await this.restartImpl());\n",
                 "		if (this.state === State.Started) {\n			await this.stateQueue.add(async () => await this.stopImpl());\n		}\n"
                 "		await this.stateQueue.add(async () => await this.startImpl());\n")],
         needs="a restart right after another, or a stop that is asked for while a restart is under way",
         breaks="a stop that follows a restart comes before the restart's start, so that the server is left running",
         main=main("""
    const out = await last(world(), activate, ok, { op: "restart", id: 1 }, { op: "stop", id: 2 }, ok, ok, ok);
    assert.strictEqual(out.client, 0);
    assert.deepStrictEqual(out.pending, []);""")),
    dict(id="V01-first-directory", property="V01", area="code",
         edits=[(SRC + "environment.ts", """						this.executableDirectory = path.dirname(
							change.binaryPath,
						);
						this.workspaceFolder""", """						this.executableDirectory ??= path.dirname(
							change.binaryPath,
						);
						this.workspaceFolder"""),
                (SRC + "environment.ts", """						this.executableDirectory = null;
						this.workspaceFolder = null;
""", """						this.workspaceFolder = null;
""")],
         needs="a restart after which another binary runs",
         breaks="the terminals' PATH leads to the binary of the first start",
         main=main("""
    const out = await last(world(), activate, ok, { op: "setting", ...user("air.executableStrategy", "environment") }, { op: "restart", id: 1 }, ok, ok);
    assert.strictEqual(out.binary, "~/e1/air");
    assert.strictEqual(out.path, "~/e1:");""")),
    dict(id="V01-change-while-stopped", property="V01", area="code",
         edits=[(SRC + "environment.ts", """		if (!this.executableDirectory) {
			return;
		}
""", ""),
                (SRC + "environment.ts", """						this.executableDirectory = null;
						this.workspaceFolder = null;
						this.delete();
""", """						this.delete();
"""),
                (SRC + "environment.ts", "			this.prepend(this.executableDirectory);", "			this.prepend(this.executableDirectory!);")],
         needs="a stop, and then a change of the setting for the PATH",
         breaks="terminals get a PATH of a server that doesn't run",
         main=main("""
    const out = await last(world({ settings: [user("air.addExecutableToTerminalPath", "false")] }), activate, ok, { op: "stop", id: 1 }, ok,
        { op: "setting", ...user("air.addExecutableToTerminalPath", "true") });
    assert.strictEqual(out.path, "");""")),
    dict(id="V02-untrusted-environment", property="V02", area="code",
         edits=[(SRC + "binary.ts", """		throw new Error(
			"Workspace is not trusted and failed to find executable in bundled location",
		);
	} else if""", """		const environmentPath = await airBinaryFromEnvironment();

		if (environmentPath) {
			return environmentPath;
		}

		throw new Error(
			"Workspace is not trusted and failed to find executable in bundled location",
		);
	} else if""")],
         needs="a workspace that isn't trusted, and no bundled binary",
         breaks="a binary from the PATH is run in a workspace that isn't trusted",
         main=main("""
    const out = await last(world({ trusted: false, binaries: ["~/e1/air"] }), activate);
    assert.deepStrictEqual(out.clients, []);""")),
    dict(id="V02-empty-environment", property="V02", area="code",
         edits=[(SRC + "binary.ts", "	const environmentPath = await which(AIR_BINARY_NAME, { nothrow: true });\n\n	if (!environmentPath) {\n		output.log(\"Failed to find environment executable\");",
                 "	const environmentPath = await which(AIR_BINARY_NAME);\n\n	if (!environmentPath) {\n		output.log(\"Failed to find environment executable\");")],
         needs="the strategy environment, and no air on the PATH",
         breaks="the server isn't started, instead of being the bundled one",
         main=main("""
    const out = await last(world({ PATH: ["~/none"], settings: [user("air.executableStrategy", "environment")] }), activate);
    assert.deepStrictEqual(out.clients.map((c) => c.command), ["~/bundled/bin/air"]);""")),
    dict(id="V03-shorter-but-gone", property="V03", area="code",
         edits=[(SRC + "workspace.ts", """				root.length > w.uri.fsPath.length &&
				(await fs.pathExists(w.uri.fsPath))
""", """				root.length > w.uri.fsPath.length
""")],
         needs="several folders, of which the one with the shortest path is gone",
         breaks="the settings of a folder that isn't there are used",
         main=main("""
    const gone = { name: "g", path: ["g"], there: false };
    const out = await last(world({ folders: [A, gone], settings: [own(["g"], "air.executableStrategy", "environment")] }), activate);
    assert.deepStrictEqual(out.clients.map((c) => c.command), ["~/bundled/bin/air"]);""")),
    dict(id="V03-first-stays", property="V03", area="code",
         edits=[(SRC + "workspace.ts", "				root = w.uri.fsPath;\n				rootWorkspace = w;\n			}\n", "				rootWorkspace = w;\n			}\n")],
         needs="three folders, of which the second is shorter than the first, and than the third, which is shorter than the first",
         breaks="the last folder that is shorter than the first is the root, instead of the shortest",
         main=main("""
    const folders = [["w", "long-one"], ["w", "s"], ["w", "long"]].map((path) => ({ name: path[1], path, there: true }));
    const out = await last(world({ folders, settings: [own(["w", "long"], "air.executableStrategy", "environment")] }), activate, ok);
    assert.strictEqual(out.events[0].folder, "~/w/s");""")),
    dict(id="V03-level-of-workspace", property="V03", area="code",
         edits=[(SRC + "settings.ts", "	return inspect?.globalValue;\n", "	return inspect?.workspaceValue ?? inspect?.globalValue;\n")],
         needs="a log level in the settings of a workspace",
         breaks="the server logs as a workspace wants it to",
         main=main("""
    const out = await last(world({ settings: [user("air.logLevel", "info"), { layer: "workspace", folder: [], key: "air.logLevel", value: "trace" }] }), activate);
    assert.strictEqual(out.clients[0].logLevel, "info");""")),
    dict(id="V04-closed-ends-it", property="V04", area="code",
         edits=[(SRC + "lsp.ts", "						if (!document) {\n							continue;\n", "						if (!document) {\n							break;\n")],
         needs="a request for the configuration of several documents, of which one was closed in the meantime",
         breaks="those that come after it get values that aren't of their language",
         main=main("""
    const out = await last(world({ docs: [file(["w", "a", "x.R"], { open: false }), file(["w", "a", "y.R"])], settings: [user("[r]editor.tabSize", "3")] }), activate, ok,
        { op: "configuration", fails: false, items: [{ section: "editor.tabSize", doc: 1 }, { section: "editor.tabSize", doc: 2 }] });
    assert.deepStrictEqual(out.got, ["next 1", "3"]);""")),
    dict(id="V04-always-r", property="V04", area="code",
         edits=[(SRC + "lsp.ts", "						const languageId = document.languageId;\n", "						const languageId = \"r\";\n")],
         needs="a document of another language that the server is asked about",
         breaks="it gets R's configuration",
         main=main("""
    const out = await last(world({ docs: [file(["w", "a", "x.qmd"], { language: "quarto" })], settings: [user("[r]editor.tabSize", "3"), user("[quarto]editor.tabSize", "5")] }),
        activate, ok, { op: "configuration", fails: false, items: [{ section: "editor.tabSize", doc: 1 }] });
    assert.deepStrictEqual(out.got, ["5"]);""")),
    dict(id="V05-never-forgets", property="V05", area="code",
         edits=[(SRC + "notification/sync-file-settings.ts", "		// Reset map of settings\n		this.settings.clear();\n", "")],
         needs="a file that the server tells of, and, when its air.toml is gone, doesn't tell of any more",
         breaks="its editor goes on with the settings of an air.toml that is gone",
         main=main("""
    const docs = [file(["w", "a", "x.R"]), file(["w", "b.R"])];
    const tell = (doc, width) => ({ op: "sync", files: [{ doc, style: "space", width }] });
    const out = await last(world({ docs }), activate, ok, tell(1, 7), tell(2, 5), { op: "active", doc: 1 });
    assert.strictEqual(out.editors[0].indentSize, "8");""")),
    dict(id="V05-tabs-as-they-are", property="V05", area="code",
         edits=[(SRC + "notification/sync-file-settings.ts", """					config.get<number>("editor.tabSize") ??
					editor.options.tabSize;
""", """					editor.options.tabSize ??
					config.get<number>("editor.tabSize");
""")],
         needs="a file whose air.toml goes from spaces to tabs",
         breaks="tabs stay as wide as the indentation was, instead of as the user wants them",
         main=main("""
    const tell = (style, width) => ({ op: "sync", files: [{ doc: 1, style, width }] });
    const out = await last(world({ settings: [user("[r]editor.tabSize", "3")] }), activate, ok, { op: "active", doc: 1 }, tell("space", 7), tell("tab", 7));
    assert.deepStrictEqual(out.editors[0], { insertSpaces: "false", tabSize: "3", indentSize: "7", cursorStyle: "1" });""")),
    dict(id="V06-some-are-saved", property="V06", area="code",
         edits=[(SRC + "workspace.ts", "	return saved.every((save) => save);\n", "	return saved.some((save) => save);\n")],
         needs="two documents with changes, of which one can't be saved",
         breaks="the folder is formatted although a document isn't saved",
         main=main("""
    const docs = [file(["w", "a", "x.R"], { dirty: true }), file(["w", "a", "y.R"], { dirty: true, saves: false })];
    const out = await last(world({ docs }), activate, ok, command("Formatting"));
    assert.deepStrictEqual(out.ran, []);""")),
    dict(id="V06-everyones-quarto", property="V06", area="code",
         edits=[(SRC + "command/workspace-folder-initialization.ts", 'config.inspect("[quarto]")?.workspaceFolderValue || {};', 'config.inspect("[quarto]")?.globalValue || {};')],
         needs="a folder (or a user) with settings for Quarto",
         breaks="the folder's settings for Quarto are lost, and get the user's",
         main=main("""
    const out = await last(world({ settings: [own(["w", "a"], "[quarto]editor.tabSize", "3")] }), activate, ok, command("Initialization"));
    assert.ok(out.settings.some((s) => s.layer === "folder" && s.key === "[quarto]editor.tabSize" && s.value === "3"));""")),
    dict(id="V06-one-line-end", property="V06", area="code",
         edits=[(SRC + "command/workspace-folder-initialization.ts", '	const lines = content.split(newline);\n', '	const lines = content.split("\\n");\n')],
         needs="a .Rbuildignore with CRLF, which has one of the patterns",
         breaks="the pattern is there twice, and lines end with two carriage returns",
         main=main("""
    const files = [{ path: ["w", "a", ".Rbuildignore"], lines: ["^x$", "^\\\\.vscode$"], crlf: true, final: true }];
    const out = await last(world({ files }), activate, ok, command("Initialization"));
    const f = out.files.find((f) => f.path[2] === ".Rbuildignore");
    assert.deepStrictEqual(f.lines, ["^x$", "^\\\\.vscode$", "^[.]?air[.]toml$"]);""")),
    dict(id="V06-hidden-toml", property="V06", area="code",
         edits=[(SRC + "command/workspace-folder-initialization.ts", "	if ((await fileExists(airTomlUri)) || (await fileExists(dotAirTomlUri))) {", "	if (await fileExists(airTomlUri)) {")],
         needs="a folder with an .air.toml and no air.toml",
         breaks="an empty air.toml is created, which is used instead of the .air.toml",
         main=main("""
    const files = [{ path: ["w", "a", ".air.toml"], lines: ["[format]"], crlf: false, final: true }];
    const out = await last(world({ files }), activate, ok, command("Initialization"));
    assert.ok(!out.files.some((f) => f.path[2] === "air.toml"));""")),
    dict(id="V06-killed-is-fine", property="V06", area="code",
         edits=[(SRC + "command/workspace-folder-formatting.ts", "		if (result.code !== 0) {", "		if (result.code) {")],
         needs="an air that is killed by a signal",
         breaks="the user is told that the folder was formatted",
         main=main("""
    const out = await last(world(), activate, ok, command("Formatting", { run: "killed" }));
    assert.strictEqual(out.asks[0].modal, true);""")),
    dict(id="V07-where-it-began", property="V07", area="code",
         edits=[(SRC + "request/viewFile.ts", "					rEditor.selection.active,\n", "					rEditor.selection.anchor,\n")],
         needs="a selection",
         breaks="the server is told the wrong end of the selection",
         main=main("""
    const out = await last(world(), activate, ok, { op: "active", doc: 1 }, { op: "view", id: 1, command: "viewSyntaxTree" });
    assert.deepStrictEqual([out.requests[0].line, out.requests[0].character], [0, 0]);""")),
    dict(id="V07-any-editor", property="V07", area="code",
         edits=[(SRC + "r-files.ts", '	return document.languageId === "r" && document.uri.scheme === "file";', '	return document.languageId === "r";')],
         needs="an active editor that is R code, and no file",
         breaks="the server is asked for views of what isn't a file",
         main=main("""
    const docs = [file(["Untitled-1"], { scheme: "untitled", rooted: false })];
    const out = await last(world({ docs }), activate, ok, { op: "active", doc: 1 }, { op: "view", id: 1, command: "viewSyntaxTree" });
    assert.deepStrictEqual(out.requests, []);""")),
]
