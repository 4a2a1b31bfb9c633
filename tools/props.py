"""The listed properties: one table, from which properties.jsonl and MANIFEST.json are written
(`python3 tools/props.py`)."""
import json
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "TLA+ specification checked with TLC; "
PROPS = []


def prop(id, title, statement, over, text, why, files, mechanism, technique=None, note=None, level="model_checking",
         na=None, observe=(), state=()):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                      mechanism=mechanism, technique=technique, note=note, level=level, na=na, observe=observe,
                      state=state))


prop("R01", "A file uses the configuration of its closest enclosing directory",
     "Among all the directories that have settings, a file uses those of the closest directory that contains it "
     "(by whole path components, the directory itself included), and the fallback when none does. "
     "That holds after every history of adding, replacing, removing, clearing and overwriting settings; adding or "
     "removing returns what was there before, and listing all enclosing settings lists them from the outermost to the "
     "innermost.",
     ["histories", "inputs"],
     "every sequence of additions, removals, replacements and overwrites of directories, and every path asked for",
     "the tests try a handful of fixed directory pairs; sibling names sharing a prefix, names sorting around `/`, "
     "and removal in the middle of nested directories only show for particular histories",
     ["crates/workspace/src/resolve.rs"],
     [("PathResolver: sorted vector scanned from the back", "crates/workspace/src/resolve.rs")],
     "every state of the resolver model replayed into the code; random recorded histories validated as behaviours",
     "Exhaustive for small directory trees in the model, each reachable state replayed; random longer histories.")

prop("E01", "Line endings are detected, normalized and chosen without touching the text",
     "A text's line ending is that of its first line end (LF when it has none); `auto` picks that one for the output, "
     "`lf`, `crlf` and `native` pick theirs. Normalizing turns every CRLF into LF, leaves everything else including "
     "lone carriage returns alone, and does nothing to a text that has none.",
     ["inputs", "configurations"], "every text and every line-ending setting",
     "the tests have four texts; mixed endings, lone CR, CRLF at the ends of the text only show for other texts",
     ["crates/line_ending/src/lib.rs", "crates/workspace/src/settings/line_ending.rs"],
     [("infer / normalize", "crates/line_ending/src/lib.rs"),
      ("LineEnding setting to formatter option", "crates/workspace/src/settings/line_ending.rs")],
     "a character-at-a-time machine, all short texts replayed; recorded conversions validated",
     "Exhaustive for texts of up to 6 characters over CR, LF and others; random longer texts. `native` is LF here.")

prop("C01", "Exactly the documented comments are directives",
     "A comment is a directive exactly if it is `fmt:` followed by `skip`, `skip file` or `table` after any number of "
     "`#` and optional white space (white space around the command is optional too), and nothing else follows. "
     "A comment starting with `Generated by` makes the file a skipped one; any other text is no directive.",
     ["inputs"], "every comment text",
     "the one test lists a dozen comments",
     ["crates/comments/src/directive.rs"],
     [("directive parsing", "crates/comments/src/directive.rs")],
     "a comment reader machine against its declarative meaning; all short comments replayed, recorded ones validated",
     "Exhaustive over token sequences up to a bound, random comments beyond, including Unicode white space.")

prop("F01", "Paths are made absolute, shown relative and recognised as R files faithfully",
     "A path is made absolute against the working directory by resolving `.` and `..` component by component (never "
     "above the root), which is idempotent; it is shown relative exactly if it lies below the working directory, and "
     "in full otherwise. A file is an R file exactly if its name has an extension and that is `r` or `R`.",
     ["inputs", "configurations"], "every path and working directory",
     "there are no tests of these; `..` at the root, prefix-sharing siblings, hidden files and dots at the end matter",
     ["crates/fs/src/lib.rs"],
     [("normalize_path, relativize_path, has_r_extension", "crates/fs/src/lib.rs")],
     "a component walker machine; all short paths replayed in five working directories, recorded ones validated",
     "Exhaustive for paths of up to four components from a small alphabet; random ones beyond. Unix paths.")

prop("S01", "Configured values keep to their documented ranges and names",
     "Line widths are accepted exactly from 1 to 320 and indent widths from 1 to 24, in every notation they can be "
     "written in, and every way to read the value back agrees; a rejected value is named with its limits. Named options "
     "accept exactly their documented names, print and serialize as documented, and defaults are the documented ones.",
     ["inputs", "configurations"], "every number and name, in every notation",
     "no test covers the boundaries of the widths or the round trip of named options",
     ["crates/settings/src/line_width.rs", "crates/settings/src/indent_width.rs", "crates/settings/src/indent_style.rs",
      "crates/settings/src/assignment_style.rs", "crates/settings/src/persistent_line_breaks.rs",
      "crates/workspace/src/settings/line_ending.rs"],
     [("validated newtypes with serde and FromStr", "crates/settings/src/line_width.rs")],
     "a settings-value state machine; every value of the whole range of each integer type near its limits recorded and "
     "validated",
     "All of 0..65535 through the numeric constructors, JSON, TOML and text; all names and near misses.")

prop("S02", "Lists of function names behave as sets",
     "A list of function names to skip or to lay out as tables contains exactly the names given to it, in whatever order, "
     "with whatever repetitions, and after merging with further names. The built-in table functions are exactly "
     "`tribble` and `fcase`.",
     ["inputs", "histories"], "every list of names and every sequence of merges and lookups",
     "the tests deserialize two short lists; an unsorted merge only breaks lookups of some names",
     ["crates/settings/src/skip.rs", "crates/settings/src/table.rs", "crates/workspace/src/settings/default_table.rs"],
     [("sorted boxed slice + binary search", "crates/settings/src/table.rs")],
     "binary search over a sorted vector modelled step by step, checked to be set membership; recorded lists validated",
     "Model exhaustive for lists of up to a few names; random recorded lists of real names.")

prop("P01", "Exclude patterns mean what .gitignore patterns mean, relative to air.toml",
     "Exclude patterns follow the rules of .gitignore, relative to the directory of the configuration file: anchoring, "
     "`*`, `**`, `?`, classes, trailing `/` for directories only, `!` to re-include, the last match decides. "
     "A path asked for by itself is also excluded when one of its parents is, and never because of a directory above "
     "the configuration file or that directory itself.",
     ["inputs", "configurations"], "every list of patterns and every path",
     "the tests have about ten patterns, one at a time; precedence between patterns and parents is not sampled",
     ["crates/workspace/src/file_patterns.rs", "crates/workspace/src/settings/exclude_patterns.rs"],
     [("FilePatterns over the ignore crate", "crates/workspace/src/file_patterns.rs"),
      ("ExcludePatterns", "crates/workspace/src/settings/exclude_patterns.rs")],
     "gitignore semantics in TLA+, all short patterns against all short paths replayed; random lists and walks validated",
     "Exhaustive for patterns of up to a few characters; negated classes and braces are left to the glob library.")

prop("P02", "The built-in exclusions and inclusions",
     "Without further configuration exactly the files named `*.R` or `*.r` are formatted, except those in `.git`, `renv` "
     "or `revdep` directories at any depth and the generated files `cpp11.R`, `RcppExports.R`, `extendr-wrappers.R` and "
     "`import-standalone-*.R`. User patterns and built-in ones do not disturb each other.",
     ["inputs", "configurations"], "every path below the root of a project",
     "the tests sample single paths",
     ["crates/workspace/src/settings/default_exclude_patterns.rs",
      "crates/workspace/src/settings/default_include_patterns.rs", "crates/workspace/src/file_patterns.rs"],
     [("built-in pattern lists", "crates/workspace/src/settings/default_exclude_patterns.rs")],
     "the pattern specification with the built-in lists; random recorded trees and questions validated",
     "Random and near-miss names at several depths; not exhaustive over names.")

prop("U01", "A grammar is read completely or rejected where it is wrong",
     "Reading a grammar yields exactly its nodes and rules in their order, with sequences, alternatives, groups, "
     "repetitions, options and labels nested as written, and every rule refers to the node or token of that name. "
     "Anything else is rejected, with an error at the position of the offending token; nothing makes the reader hang "
     "or panic, however far the grammar nests within the stack.",
     ["inputs", "programs"], "every text, in particular every grammar",
     "the only test reads one small grammar",
     ["crates/biome_ungrammar/src/lexer.rs", "crates/biome_ungrammar/src/parser.rs", "crates/biome_ungrammar/src/lib.rs"],
     [("tokenize", "crates/biome_ungrammar/src/lexer.rs"), ("recursive descent", "crates/biome_ungrammar/src/parser.rs")],
     "lexer and parser as specifications; all short texts and token sequences replayed, random grammars validated",
     "Exhaustive for short texts over the significant characters and short token sequences; random valid and broken "
     "grammars and the repository's own grammars beyond.")

prop("K01", "Messages on the wire are framed whole, however the bytes arrive",
     "Every stream of well-formed messages decodes to exactly those messages in their order, whatever chunks it arrives "
     "in, and however often the reader asks before a message is complete; nothing of the next message is consumed. "
     "One other header beside the length is ignored, messages without content are passed over, and an encoded message "
     "decodes to itself.",
     ["inputs", "schedules"], "every stream of messages and every way of cutting it into chunks",
     "the tests decode a message or two that arrive at once; a cut inside a header or a character is not sampled",
     ["crates/lsp_test/src/tower_lsp/codec.rs"],
     [("LanguageServerCodec: Decoder and Encoder", "crates/lsp_test/src/tower_lsp/codec.rs")],
     "the decoder as a machine over a growing buffer; all short streams in all cuttings replayed, recorded ones validated",
     "Exhaustive for short streams cut into up to three chunks or bytes; random longer streams.")

prop("K02", "A malformed message is reported and left behind",
     "Headers that cannot be parsed, lack a length or have a bad one, and bodies that are not text or not a message are "
     "reported as errors. The decoder then goes on with what follows, so the next well-formed message is decoded; it never "
     "stalls, loops or crashes.",
     ["inputs", "schedules"], "every stream of bytes and every way of cutting it into chunks",
     "the tests contain one malformed stream",
     ["crates/lsp_test/src/tower_lsp/codec.rs"],
     [("Decoder::decode and its recovery", "crates/lsp_test/src/tower_lsp/codec.rs")],
     "the decoder machine with malformed input and liveness; all short streams replayed, recorded ones validated",
     "Exhaustive for short streams of well-formed and broken pieces; random longer ones.")

prop("Z01", "Zed starts the air the user asked for",
     "The Zed extension starts the configured binary if there is one, else the one found on the PATH of the worktree, else "
     "the latest release for the platform; with the configured arguments or else `language-server`, wherever the binary "
     "comes from. Initialization options and workspace configuration are passed on as configured.",
     ["configurations", "histories"], "every configuration, worktree and sequence of requests",
     "there are no tests of the extension",
     ["editors/zed/src/lib.rs"],
     [("AirExtension::language_server_binary and command", "editors/zed/src/lib.rs")],
     "the extension as a state machine over configuration, disk and releases; recorded histories validated",
     "Model exhaustive over small worlds; random histories against a stand-in for Zed's API.")

prop("Z02", "Zed downloads the latest air once and keeps only that",
     "When air is neither configured nor on the PATH, the release asset for the platform is downloaded, once per version: a "
     "binary already on disk is used as it is, and the one used before in a session is used again, without asking for "
     "releases, while it is there. After a download directories of other versions are removed, never the one just "
     "downloaded; a failure is reported and changes nothing about what is used next.",
     ["histories", "fault_sequences"], "every sequence of requests, releases and failures of single steps",
     "there are no tests of the extension",
     ["editors/zed/src/lib.rs"],
     [("download, cache and cleanup", "editors/zed/src/lib.rs")],
     "the extension as a state machine with failing steps; recorded histories validated",
     "Model exhaustive over small worlds; random histories against a stand-in for Zed's API.")

prop("X01", "Build tasks restore the directory and environment and run what they say",
     "Entering a directory or setting an environment variable lasts until its guard is dropped, after which the directory or "
     "variable is what it was before, in any nesting and also when unwinding from a panic. A command gets exactly the words "
     "written as its arguments, the entered directory and the given input, and gives back its trimmed output or an error.",
     ["histories", "inputs"], "every nesting of directories, variables, panics and commands",
     "there are no tests of the build tasks' helpers",
     ["xtask/src/glue.rs", "xtask/src/lib.rs"],
     [("pushd, pushenv and their guards; run!", "xtask/src/glue.rs"), ("reformat", "xtask/src/lib.rs")],
     "stacks of guards as a state machine; recorded nestings, commands and generated code validated",
     "Model exhaustive for small nestings and command lines; random longer ones.")

prop("X02", "File operations of build tasks do what they say or say what failed",
     "Reading, writing, creating, copying, renaming and removing affect exactly the named path (removing removes "
     "everything below it, follows no symbolic link, and is content with nothing being there). When one fails, the error "
     "names the path.",
     ["histories", "inputs"], "every tree of files and sequence of operations",
     "there are no tests of the build tasks' helpers",
     ["xtask/src/glue.rs"],
     [("fs2, rm_rf", "xtask/src/glue.rs")],
     "a small file system as a state machine; recorded histories of operations validated",
     "Model exhaustive for tiny trees; random longer histories.")

APP = " The formatter's inside is replaced by a stand-in whose result names the options it was given."
prop("A01", "air format writes exactly the files that change, and reports the rest",
     "`air format` on paths writes exactly those selected files whose formatting differs from what they hold, each with "
     "its formatting under the options of its configuration, and does not touch any other file (not even rewriting the "
     "same text). A file that cannot be read (or is not UTF-8), parsed or written is named in an error, left as it was, and does "
     "not keep the others from being formatted. The exit status is 0 without errors and 255 with, and a second run changes "
     "nothing.",
     ["inputs", "configurations", "fault_sequences", "histories"],
     "every tree of files, configuration and permissions, every list of paths, and histories of runs and edits",
     "there are no tests that run the command on anything but a few one-file directories, none with faults",
     ["crates/air/src/commands/format/paths.rs", "crates/air/src/commands/format.rs", "crates/workspace/src/format.rs",
      "crates/workspace/src/discovery.rs", "crates/air/src/status.rs", "crates/air/src/lib.rs"],
     [("format_paths_write, write_path", "crates/air/src/commands/format/paths.rs")],
     "the command as a transition of a file tree; invariants on all small projects; recorded runs of the real command validated",
     "Model exhaustive for all small projects; thousands of random projects, runs and edits of the real command." + APP)

prop("A02", "air format --check writes nothing and tells what would change",
     "`air format --check` changes no file. It lists exactly the files that `air format` with the same arguments would write, "
     "and reports the same reading and parsing errors. It exits with 255 when there are errors, otherwise with 1 when something "
     "would change and with 0 when nothing would.",
     ["inputs", "configurations", "fault_sequences", "histories"],
     "every tree of files, configuration and permissions, every list of paths, and histories of runs and edits",
     "the tests check one file at a time",
     ["crates/air/src/commands/format/paths.rs", "crates/air/src/commands/format.rs", "crates/workspace/src/format.rs"],
     [("format_paths_check, check_path, inform_changed", "crates/air/src/commands/format/paths.rs")],
     "as A01; checking and writing are compared on all small projects",
     "As A01." + APP)

prop("A03", "Formatting stdin agrees with formatting the file of that name",
     "`air format --stdin-file-path p` writes to stdout what `air format p` would make of a file `p` with the text of stdin, "
     "whether or not `p` exists: formatted under the configuration of `p`, or unchanged when `p` is not an R file or is excluded "
     "(unless forced). With `--check` it writes nothing and exits 1 exactly if the text would change. A text that is not UTF-8 "
     "or does not parse, and an invalid configuration, give status 255 and no output. No file is ever touched.",
     ["inputs", "configurations"], "every text, path and tree of configurations",
     "the tests have a handful of paths and texts",
     ["crates/air/src/commands/format/stdin.rs", "crates/air/src/commands/format.rs", "crates/workspace/src/discovery.rs"],
     [("is_stdin_formattable, format_stdin_write, format_stdin_check", "crates/air/src/commands/format/stdin.rs")],
     "stdin runs next to path runs on all small projects; recorded runs of the real command validated",
     "As A01." + APP)

prop("W01", "A run selects R files that are not excluded, hidden or ignored by git",
     "Of a directory that is asked for, air selects every R file below it except those (and everything below directories) that are "
     "hidden, ignored by the .gitignore files of the repository around them, or match an exclude pattern. A path asked "
     "for by itself is selected, hidden or ignored by git or not, if it is an R file and neither it nor a directory above it is "
     "excluded. `--force` ignores the excludes and the requirement of being an R file, nothing else. The order, the number of "
     "times and the way of writing the arguments (relative, absolute, with `..`) do not matter.",
     ["inputs", "configurations"], "every tree, every set of .gitignore files, excludes and arguments",
     "the tests have a dozen small trees",
     ["crates/workspace/src/discovery.rs", "crates/workspace/src/file_patterns.rs",
      "crates/workspace/src/settings/exclude_patterns.rs", "crates/fs/src/lib.rs"],
     [("discover_r_file_paths, FilesVisitor", "crates/workspace/src/discovery.rs")],
     "selection defined on a file tree with git, excludes and arguments; recorded runs of the real command validated",
     "As A01, with more .gitignore files and excludes. One known finding (of the ignore crate)." + APP)

prop("W02", "Every file is governed by the closest configuration above what was asked for",
     "For every path that is asked for, the closest configuration at or above it applies to it and everything below it (except "
     "where a deeper path was asked for that has its own); a directory's air.toml goes before its .air.toml, directories of "
     "that name do not count, and without any the defaults apply. Excludes are relative to the directory of the configuration. "
     "One invalid configuration among those that apply stops the run before anything is written (status 255).",
     ["inputs", "configurations"], "every tree of configurations and every list of paths",
     "the tests have two nested configurations at most",
     ["crates/workspace/src/discovery.rs", "crates/workspace/src/toml.rs", "crates/workspace/src/resolve.rs",
      "crates/workspace/src/toml_options.rs"],
     [("discover_settings", "crates/workspace/src/discovery.rs"), ("find_air_toml_in_directory", "crates/workspace/src/toml.rs")],
     "discovery and resolution defined on a file tree; recorded runs of the real command validated",
     "As A01, with more configurations." + APP)

prop("S03", "A configuration file means what it says, or is refused",
     "Every option that air.toml sets reaches the formatter with just that value, and every option it does not set has its "
     "documented default (80, 2, space, auto, persistent, arrow, default excludes, tables `tribble` and `fcase` besides the "
     "listed ones unless default-table is false). A file with an unknown key, a value of another type, a line width outside "
     "1..320, an indent width outside 1..24, or an unknown word is refused as a whole.",
     ["inputs"], "every configuration file",
     "the tests have a few files with one option each",
     ["crates/workspace/src/toml_options.rs", "crates/workspace/src/toml.rs", "crates/workspace/src/settings.rs",
      "crates/settings/src/line_width.rs", "crates/settings/src/indent_width.rs"],
     [("FormatTomlOptions, into_settings", "crates/workspace/src/toml_options.rs"),
      ("to_format_options", "crates/workspace/src/settings.rs")],
     "validity and meaning of settings in the specification; every width, every word and random files through the real command",
     "Every width -3..330 and the values around every power of two; every option alone; random files." + APP)

prop("S04", "The published schema accepts exactly the configuration files air accepts",
     "artifacts/air.schema.json accepts a configuration file exactly if air does: the same keys, types, words and ranges.",
     ["inputs"], "every configuration file",
     "no test compares the two",
     ["artifacts/air.schema.json", "crates/workspace/src/toml_options.rs"],
     [("FormatTomlOptions", "crates/workspace/src/toml_options.rs")],
     "the schema's verdicts on the files of S03 validated against the specification that S03 binds the parser to",
     "The files of S03; floats with integral values are left out (TOML and JSON Schema differ on what an integer is).")


FMT = " Runs on stand-ins for the crates the formatter is built on, which reproduce all snapshots of the repository (DESIGN.md)."
RF = "crates/air_r_formatter/src/"

prop("B01", "Formatting never changes the program",
     "What `air format` writes parses without errors to the same program as what was there before: the same expressions, "
     "arguments, parameters and literals in the same order and nesting. Only these may differ: white space, line breaks and comments, "
     "`;` between expressions, braces put around the bodies of control flow and functions, line endings inside strings, and `=` for "
     "`<-` and back under an assignment style.",
     ["programs", "configurations"], "every parsable R file, with comments anywhere, under every configuration",
     "the snapshots sample layouts that were thought of; which combination of nesting, width, comments and persistent breaks drops, "
     "doubles or swallows code cannot be listed",
     [RF + "r/auxiliary/call_arguments.rs", RF + "r/auxiliary/function_definition.rs", RF + "r/auxiliary/binary_expression.rs",
      RF + "r/auxiliary/if_statement.rs", RF + "comments.rs", RF + "string_content.rs",
      RF + "call_arguments_table.rs"],
     [("the format rules", RF + "r/auxiliary/mod.rs"), ("comment placement", RF + "comments.rs")],
     "what a program means defined on its tree; trees read back from the real formatter's output validated against the generated "
     "programs'",
     "Random programs of every kind of expression, with comments between any two tokens; and the repository's test inputs. "
     "Two known findings." + FMT)

prop("B02", "Formatting keeps every comment exactly once",
     "Every comment of a file is in its formatted text, exactly once and with the same text (trailing blanks aside; comments that were on "
     "lines of their own may come to share one), and none is added. Comments on lines of their own before statements, arguments, "
     "parameters and pipeline steps, and at the ends of their lines, keep their order.",
     ["programs", "configurations"], "every parsable R file with comments anywhere, under every configuration",
     "the snapshots have comments at the places that were thought of",
     [RF + "comments.rs", RF + "r/auxiliary/call_arguments.rs", RF + "call_arguments_table.rs"],
     [("handle_*_comment", RF + "comments.rs"), ("dangling comments", RF + "r/auxiliary/braced_expressions.rs")],
     "recorded comments of real formatted texts validated, as a bag or in order, against the generated programs'",
     "Comments between any two tokens (one or several), random programs; and the repository's test inputs." + FMT)

prop("B03", "Formatting a second time changes nothing",
     "Formatting what was formatted, with the same configuration, gives the same text byte for byte.",
     ["programs", "configurations"], "every parsable R file with comments around statements, arguments, parameters and operators, "
     "under every configuration",
     "the snapshots are not formatted twice; instability needs a combination of width, comments and persistent line breaks",
     [RF + "r/auxiliary/call_arguments.rs", RF + "comments.rs", RF + "r/auxiliary/binary_expression.rs",
      RF + "r/auxiliary/parameters.rs", "crates/settings/src/persistent_line_breaks.rs"],
     [("persistent line breaks, grouping", RF + "r/auxiliary/call_arguments.rs")],
     "the specification's layout is a fixed point on all small programs; recorded second runs validated",
     "All programs of MC_RFormat in all layouts; random programs with and without comments, skipped code and tables; the "
     "repository's test inputs. Comments at places where no one puts them are left to B01 and B02." + FMT)

prop("B04", "A program is laid out exactly as specified",
     "The output is the one that spec/format/RFormat.tla gives. A group of arguments, parameters or operands that fits the line width "
     "is on one line, and is broken with one element per line, indented by the configured width and style, when it doesn't, when "
     "something in it has to break, or when it had a line break before its first element and line breaks persist. A last argument that is a "
     "function or braces may hug the call; `test_that`-like calls do; bodies of control flow that aren't one short line get braces; pipelines and "
     "other chains break at every operator, or none; up to two empty lines between expressions at the top level are kept, up to one elsewhere, and none at the start or end of braces; "
     "one space around binary operators except `^`, `:`, `?` and the extraction operators.",
     ["programs", "configurations"], "every program and layout of it, under every line width, indent style and width, and persistence",
     "the snapshots are 42 files at one width",
     [RF + "r/auxiliary/call_arguments.rs", RF + "r/auxiliary/binary_expression.rs", RF + "r/auxiliary/parameters.rs",
      RF + "r/auxiliary/function_definition.rs", RF + "r/auxiliary/if_statement.rs", RF + "joiner_ext.rs", RF + "loop_body.rs"],
     [("best-fitting of call arguments", RF + "r/auxiliary/call_arguments.rs"),
      ("binary chains", RF + "r/auxiliary/binary_expression.rs"), ("auto-bracing", RF + "loop_body.rs")],
     "the formatter's layout as a function of program, line breaks and options, with a document printer; all small programs checked and "
     "replayed, recorded random ones validated line by line",
     "Every program of Small.tla in every layout and option; random programs to some 60 tokens, with and without comments." + FMT)

prop("B05", "What is to be left alone is left alone, and only that",
     "Code under a `# fmt: skip` comment, and calls of functions named in the `skip` setting, keep their text as it was (lines after "
     "the first are not even indented again), and all else is formatted as if it weren't there. `# fmt: skip file` before all code, and a comment "
     "starting with `# Generated by` at the top, leave the whole file as it was; anywhere else they mean nothing.",
     ["programs", "configurations"], "every program and every place of a directive, every list of functions",
     "the snapshots have some directives at some places",
     ["crates/comments/src/directive.rs", RF + "comments_ext.rs", RF + "comments.rs", RF + "lib.rs",
      "crates/settings/src/skip.rs"],
     [("has_skip_directive", RF + "comments_ext.rs"), ("skip file", RF + "lib.rs")],
     "directives and the setting in the layout function; recorded random programs with directives validated line by line",
     "Random programs with directives before statements, arguments and operands, and functions named in the settings." + FMT)

prop("B06", "Tables are aligned by columns",
     "Calls under `# fmt: table`, and calls of functions named in the settings (by default tribble and fcase), have their rows, as the line "
     "breaks of the source divide them, one per line, with cells padded to their column: numbers to the right so that their decimal points meet, all "
     "else to the left; named arguments, and what follows them, come after the rows as arguments do elsewhere. A call with a cell over several lines or a comment inside a cell is left as it was.",
     ["programs", "configurations"], "every call with line breaks and comments, under every configuration",
     "the one snapshot of tables has two dozen",
     [RF + "call_arguments_table.rs", RF + "r/auxiliary/call_arguments.rs", "crates/settings/src/table.rs"],
     [("fmt_table", RF + "call_arguments_table.rs")],
     "tables in the layout function; recorded random tables validated line by line",
     "Random tables of up to 4 rows and columns with comments, empty lines, holes and wide characters." + FMT)

prop("B07", "The output has one kind of line ending, and ends in it",
     "Every line end of the output, those inside strings, comments and skipped code included, is the one that the `line-ending` setting asks for "
     "(`auto`: the first one of the file), and the text of a file that has code ends in exactly one.",
     ["programs", "configurations"], "every program with every mixture of line endings, under every setting",
     "the tests have three files",
     [RF + "lib.rs", RF + "context.rs", "crates/line_ending/src/lib.rs", "crates/workspace/src/settings/line_ending.rs"],
     [("to_format_options", "crates/workspace/src/settings.rs"), ("normalize", "crates/line_ending/src/lib.rs")],
     "recorded outputs of random programs with random line ends validated",
     "Random programs whose line ends are LF or CRLF at random, with strings and skipped code over several lines." + FMT)

prop("B08", "Assignments get the chosen operator exactly where that is safe",
     "With the style `arrow` an `=` that assigns becomes `<-`, with `equal` an `<-` becomes `=`, in statements and bodies; never where "
     "`=` would mean an argument, a default or a syntax error (arguments, conditions, operands of other operators); and with `preserve`, and for `<<-`, "
     "`->`, `->>` and `:=` always, the operator stays.",
     ["programs", "configurations"], "every place of an assignment, under every style",
     "the two snapshots list some dozen places",
     [RF + "r/auxiliary/binary_expression.rs", "crates/settings/src/assignment_style.rs"],
     [("assignment operator", RF + "r/auxiliary/binary_expression.rs")],
     "where assignments are converted defined on the tree; recorded random programs validated operator by operator",
     "All small programs, random ones with assignments anywhere. `a = b <- c` is left out (R and its tree-sitter grammar disagree)." + FMT)

prop("B09", "The syntax tree is the program's",
     "Parsing a valid R program gives the tree that R's grammar says: each kind of node with its parts in their slots, operators by precedence and "
     "associativity, line breaks ending expressions except in brackets, `else` and strings as in R; for every layout and comments anywhere. "
     "The tree's text is the file's.",
     ["programs"], "every program in every layout",
     "the parser's snapshots are 39 files",
     ["crates/air_r_parser/src/treesitter.rs", "crates/air_r_parser/src/parse.rs", "crates/air_r_factory/src/generated/syntax_factory.rs",
      "crates/air_r_syntax/src/generated/kind.rs"],
     [("RWalk", "crates/air_r_parser/src/parse.rs"), ("syntax factory", "crates/air_r_factory/src/generated/syntax_factory.rs")],
     "programs with their trees generated by the specification and replayed; recorded trees of random programs validated",
     "Every program of Small.tla in every layout; random programs with comments, blanks and line breaks anywhere. tree-sitter-r is a stand-in." + FMT)

prop("B10", "Between the tokens nothing is lost, and each piece goes to its token",
     "Every blank, line end and comment of a file is in its tree exactly once, in order: what follows a token on its line stays with it, "
     "what comes after the first line end goes to the next one, and a comment at the end of a line goes with the token before it.",
     ["programs"], "every program with any white space and comments between any two tokens",
     "the parser's tests have some dozen texts",
     ["crates/air_r_parser/src/parse.rs", "crates/air_r_parser/src/treesitter.rs"],
     [("RParse, trivia", "crates/air_r_parser/src/parse.rs")],
     "where trivia goes defined on gaps between tokens; recorded trees of random programs validated",
     "Random programs with up to four pieces between any two tokens." + FMT)

prop("B11", "What is no program is refused, never rewritten",
     "A file whose brackets, braces, parentheses or strings do not match gives a syntax error (and so is never written), whatever else is in it; "
     "no file makes the parser or the formatter panic.",
     ["programs"], "every token of a program left out, doubled or replaced",
     "the tests have two such texts",
     ["crates/air_r_parser/src/parse.rs", "crates/air_r_parser/src/lib.rs", "crates/air/src/commands/format/paths.rs"],
     [("parse errors", "crates/air_r_parser/src/parse.rs")],
     "matching of brackets defined on tokens; recorded verdicts on random broken programs validated",
     "Random programs with one bracket or string left out, added or replaced. tree-sitter-r is a stand-in." + FMT)

LSP = " The server's dependencies (tower-lsp, line index, diff) are stand-ins, with which its own tests pass."

prop("D01", "The server's copy of a document stays the client's",
     "After every history of opening a document and changing it, whole or in parts, the server has the client's text "
     "with line feeds for line ends: changes of one notification are made one after the other, in the order given, each "
     "in terms of the text as the previous one left it; positions count UTF-8 bytes or UTF-16 units, as was agreed. Its "
     "tree, its version, and its positions are those of that text, and its line ending is that of the text as it was opened.",
     ["histories", "inputs"], "every text, every sequence of notifications with every sequence of changes, both encodings",
     "the tests make one change to each of two texts; that the index of lines is not remade before every change matters "
     "only for particular sequences of changes",
     ["crates/lsp/src/documents.rs", "crates/aether_lsp_utils/src/proto/from_proto.rs"],
     [("change batches and the line index", "crates/aether_lsp_utils/src/proto/from_proto.rs"),
      ("Document", "crates/lsp/src/documents.rs")],
     "the algorithm with its outdated index refines the protocol's meaning in the model; all short histories replayed; "
     "recorded random histories validated",
     "Exhaustive for batches of 3 changes to texts of up to 2 pieces; random longer histories. Positions are within "
     "their lines; no lone carriage returns." + LSP)

prop("D02", "Text edits do exactly what they say",
     "Edits that do not overlap, added to a builder in any order, become a sorted list in which edits that touch are one, "
     "and applying it replaces each part by its text, with insertions at one place in the order they were added. An offset "
     "maps to where its text went, or nowhere if it was inside something replaced. Uniting two edits gives both, with what "
     "both delete deleted once, and fails leaving both as they were if they overlap. The difference of two texts, applied "
     "to the first, gives the second.",
     ["inputs"], "every text and every set of edits, every two texts",
     "the tests have half a dozen edits; insertions at one place, touching edits, multi-byte characters only show for others",
     ["crates/aether_lsp_utils/src/text_edit.rs", "crates/aether_lsp_utils/src/diff.rs"],
     [("TextEdit and its builder", "crates/aether_lsp_utils/src/text_edit.rs"), ("diff", "crates/aether_lsp_utils/src/diff.rs")],
     "edits as an algebra in the model (two ways to apply them agree); all small cases replayed; recorded ones validated",
     "Exhaustive for up to 3 edits of short texts, random beyond; differences of several grains." + LSP)

prop("D03", "Edits and positions mean the same to client and server",
     "Edits that the server sends, applied by the client as the protocol says (all in terms of the original text, those "
     "at one place in order), turn its text into the one the server meant, with the line ends of the document; edits of "
     "the protocol are applied that way in whichever order they are listed. Every place in a text has a position, in "
     "either encoding, that leads back to it, and a position below the last line is an error.",
     ["inputs"], "every text, every edit and order of edits, both encodings and line endings",
     "the tests apply one edit to plain text",
     ["crates/aether_lsp_utils/src/proto/to_proto.rs", "crates/aether_lsp_utils/src/proto/from_proto.rs"],
     [("edits for the client", "crates/aether_lsp_utils/src/proto/to_proto.rs"),
      ("edits of the protocol", "crates/aether_lsp_utils/src/proto/from_proto.rs")],
     "sending and applying composed in the model; recorded edits and positions validated against the protocol's meaning",
     "Exhaustive for up to 3 edits of short texts in the model, random in the code." + LSP)

prop("L01", "A conversation with the server begins and ends as agreed",
     "Whatever the client says it can do, `initialize` is answered with an encoding it offered (UTF-8 if it did, UTF-16 otherwise), "
     "incremental synchronisation, folders, and formatting of documents and of ranges; after `initialized` the server asks to be told of "
     "configuration and of air.toml and .air.toml files exactly if the client supports that dynamically, once each; `shutdown` is answered "
     "and `exit` ends the server.",
     ["histories"], "every combination of client capabilities, offered encodings and initialization options, also odd ones",
     "the tests start the server with one set of capabilities",
     ["crates/lsp/src/handlers_state.rs", "crates/lsp/src/handlers.rs", "crates/lsp/src/capabilities.rs", "crates/lsp/src/tower_lsp.rs"],
     [("capabilities", "crates/lsp/src/capabilities.rs")],
     "the handshake as a function of what the client says; recorded starts and ends of conversations validated",
     "Random capabilities, encodings, folders and options." + LSP)

prop("L02", "Every request is answered once, and nothing ends the server",
     "Requests and notifications take effect in the order they were sent, also when many are sent without waiting. Every request gets one answer: "
     "about documents the server has a result, about others and for unknown methods an error. No message, and no failure of the client "
     "to answer, ends the server or keeps later requests from being answered.",
     ["histories", "schedules"], "every sequence of messages, sent in bursts, with a client that fails to answer some",
     "the tests wait after every message and never send one about an unknown document",
     ["crates/lsp/src/main_loop.rs", "crates/lsp/src/tower_lsp.rs", "crates/lsp/src/state.rs", "crates/lsp/src/handlers_state.rs"],
     [("GlobalState", "crates/lsp/src/main_loop.rs"), ("WorldState", "crates/lsp/src/state.rs")],
     "the server as a machine that takes messages one by one; recorded random conversations validated",
     "Random conversations of bursts of messages." + LSP)

prop("L03", "A document is formatted with the configuration of its folder",
     "A document in an open folder is formatted with the configuration of the innermost such folder: the air.toml (or .air.toml) closest to the folder, "
     "in it or above, as of when the folder was opened or a change of a configuration file in the folder was last announced, and without one, or with one "
     "that can't be read, as the editor says. Untitled documents use that of the only folder, if there is one only. Documents excluded there, "
     "or by default, are left alone. Folders come and go without effect on others.",
     ["histories"], "every history of opening and closing folders and of configurations created, changed, broken and removed, nested folders included",
     "the tests have one folder with one configuration that never changes",
     ["crates/lsp/src/workspaces.rs", "crates/lsp/src/file_patterns.rs", "crates/workspace/src/resolve.rs", "crates/lsp/src/handlers_state.rs",
      "crates/workspace/src/discovery.rs"],
     [("WorkspaceSettingsResolver", "crates/lsp/src/workspaces.rs")],
     "folders, disk and announcements as a model with invariants; all its histories up to 4 steps (thorough: 5) replayed in the server; recorded conversations validated",
     "Three folders, two of them nested, four documents and three configurations in the model; nine configurations and random "
     "histories in the conversations." + LSP)

prop("L04", "Formatting a document in the editor gives what the formatter gives",
     "After formatting, the document is the formatter's output for its text (without the last line end in notebook cells) with the indentation of the request "
     "where no configuration says otherwise; the edits are legal: in range, not overlapping, in the agreed encoding. The document keeps its own line endings, "
     "whatever is configured. A document with syntax errors, or already formatted, gets no edits, and formatting again changes nothing.",
     ["histories", "inputs"], "every text and history of changes, every request's options, both encodings and line endings",
     "the tests format a handful of ASCII texts as they were opened",
     ["crates/lsp/src/handlers_format.rs", "crates/lsp/src/documents.rs", "crates/lsp/src/workspaces.rs", "crates/lsp/src/handlers_state.rs",
      "crates/aether_lsp_utils/src/proto/to_proto.rs"],
     [("document formatting", "crates/lsp/src/handlers_format.rs"), ("DocumentSettings", "crates/lsp/src/settings.rs")],
     "what the client's text becomes is defined from the server's edits; recorded conversations with changes between requests validated",
     "Random texts, changes and options; the formatter itself is decided by B01 to B11." + LSP)

prop("L05", "Formatting a selection formats the statements it touches, and nothing else",
     "The statements formatted are those that the selection touches in the innermost list of statements (the program, or a `{` list) with statements "
     "at both of its ends; everything before the first one's comments and after the last one's trailing comment stays as it is. They come out as the "
     "formatter formats them by themselves, indented like the first of them. Nothing happens where none is touched, in excluded documents, "
     "with syntax errors, and in skipped files.",
     ["inputs"], "every program and every selection in it, backwards selections aside",
     "the tests select a dozen ranges in small programs",
     ["crates/lsp/src/handlers_format.rs", "crates/air_r_formatter/src/joiner_ext.rs", "crates/lsp/src/handlers_state.rs",
      "crates/aether_lsp_utils/src/proto/to_proto.rs"],
     [("logical lines", "crates/lsp/src/handlers_format.rs")],
     "selections defined on trees of statements; recorded conversations over random programs and selections validated",
     "Random programs with nested lists up to three deep, comments, empty lines and skip comments; nothing in them needs to be broken over lines." + LSP)

prop("L06", "The editor's settings are asked for, and told, when they must be",
     "When a document is opened and when the client's configuration changes, the client is asked, in one request, for the settings of the server and of "
     "the documents concerned, if it supports that. A client that wants them is told the file settings of each document with a configuration, "
     "and of no other: of a document that is opened, and of all when it begins to want them or when a configuration file changed. A failing or "
     "short answer changes nothing.",
     ["histories"], "every history of documents, folders, configurations and answers of the client",
     "the tests never answer a request for configuration with anything but defaults",
     ["crates/lsp/src/handlers_state.rs", "crates/lsp/src/settings_vsc.rs", "crates/lsp/src/settings.rs", "crates/lsp/src/notifications"],
     [("syncFileSettings", "crates/lsp/src/handlers_state.rs")],
     "questions and notices as outputs of the server's machine; recorded conversations validated",
     "Random conversations; whether a change that leaves no folder with a configuration is announced is open." + LSP)

prop("L07", "The server logs what it was asked to, to the client that shows it",
     "Air's own crates log at the level of AIR_LOG_LEVEL or else of the client (`air.logLevel`: error, warn or warning, info, debug, trace; at the "
     "start, and from each change of its configuration on) or else at info. Crates it depends on log nothing, unless the directives in "
     "AIR_DEPENDENCY_LOG_LEVELS, or else those of the client, say so, the most specific one counting. Settings that can't be read, and failed or "
     "short answers, change nothing (at the start: they count as not given). The levels are told when they are given anew, and only then. What is "
     "logged gets to VS Code and Zed once each and in order as log messages, and for any other client to stderr.",
     ["histories", "inputs"], "every history of environment, options at the start and changes of the configuration, legible or not",
     "no test looks at what is logged, or at options of the client",
     ["crates/lsp/src/logging.rs", "crates/lsp/src/settings.rs", "crates/lsp/src/settings_vsc.rs", "crates/lsp/src/handlers_state.rs"],
     [("log_filter, LogState", "crates/lsp/src/logging.rs")],
     "levels as a state machine with a filter of directives, exhaustive for small histories and replayed; recorded sessions validated, with every "
     "level of eight places probed after each step",
     "Three steps, up to seven lists of directives, five levels exhaustively; random sessions." + LSP)


CODE = " The editor, the language client and the packages are stand-ins; the extension is bundled as it is."
CODE_DIR = "editors/code/src/"

prop("V01", "In VS Code one server lives at a time, and terminals find its binary",
     "Starts, stops and restarts of the server (activation, deactivation, the command, or calls) are carried out one after the other in the order "
     "they were asked for, each ends once, and at no time do two servers run: starting what is started and stopping what is stopped is nothing, a restart is a "
     "stop (of what is started) and a start. A server that fails to start leaves things stopped, one that fails to stop counts as stopped; the request fails, "
     "later ones are carried out. Each change is announced with the binary. While a server runs, and only then, the terminals' PATH begins with the directory "
     "of its binary, unless `air.addExecutableToTerminalPath` is off, changes of which count at once.",
     ["histories", "schedules", "fault_sequences"], "every sequence of starts, stops and restarts, also asked for while others are under way, every failure of the client in between",
     "the extension's tests start it once in a real editor, and none of them can run here",
     [CODE_DIR + "lsp.ts", CODE_DIR + "environment.ts", CODE_DIR + "extension.ts", CODE_DIR + "commands.ts", CODE_DIR + "settings.ts"],
     [("Lsp", CODE_DIR + "lsp.ts"), ("PathEnvironmentVariableManager", CODE_DIR + "environment.ts")],
     "the session as a queue and a machine with safety invariants and liveness, all its short histories replayed in the extension; recorded random sessions validated",
     "Histories of up to 5 steps exhaustively (thorough: 6), random ones up to 20." + CODE)

prop("V02", "VS Code runs the binary that the strategy says, and trusts no workspace's",
     "In a workspace that isn't trusted only the bundled binary is run. Otherwise `bundled` (the default) is the bundled one, or, without it, the first "
     "on the PATH; `environment` the first on the PATH, or, without one, the bundled one; `path` the one at `air.executablePath`, which has to be there. What "
     "there is, and what the settings are, counts at the time of each start. Without a binary the start fails. It is run as `air language-server`.",
     ["inputs", "histories"], "every combination of trust, strategy, and binaries that are there or not, at every start",
     "the tests know one binary, the bundled one",
     [CODE_DIR + "binary.ts", CODE_DIR + "lsp.ts", CODE_DIR + "constants.ts", CODE_DIR + "settings.ts"],
     [("resolveAirBinaryPath", CODE_DIR + "binary.ts")],
     "the choice as a function, all 1920 small worlds replayed in the extension; recorded random sessions validated",
     "Exhaustive over trust, strategies, presence of binaries and PATHs of up to three directories." + CODE)

prop("V03", "VS Code's server is started for the root folder, with the user's log levels",
     "The settings at a start (strategy, path, terminal PATH) are those of the root folder: with one folder that one, with several the one with the shortest path among those that "
     "exist (the first of them, if several are as short), the first one if none exists, and without folders the working directory. The log levels that the server is started "
     "with are the user's, never those of a workspace or folder, and missing if the user has none.",
     ["inputs", "histories"], "every list of folders, existing or not, and every layering of settings",
     "the tests open one folder with default settings",
     [CODE_DIR + "workspace.ts", CODE_DIR + "settings.ts", CODE_DIR + "lsp.ts"],
     [("getRootWorkspaceFolder", CODE_DIR + "workspace.ts"), ("getInitializationOptions", CODE_DIR + "settings.ts")],
     "the root as an algorithm and as a minimum in the model, all lists of up to 4 folders replayed; recorded random sessions validated",
     "Exhaustive over lists of up to four folders with settings of their own." + CODE)

prop("V04", "The server gets the configuration of a document's language",
     "Asked by the server for configuration, the extension answers each item that has a section and is about an open document with the setting as it is for this document and its "
     "language (which comes before what isn't of the language), and every other item, and an error, as the language client answers it; it opens no document.",
     ["inputs", "histories"], "every request with every mix of items, every layering of settings, documents open and closed, of any scheme and language",
     "the tests open R files without settings for R",
     [CODE_DIR + "lsp.ts"],
     [("middleware", CODE_DIR + "lsp.ts")],
     "layers of settings in the model, all small requests replayed; recorded random sessions validated",
     "Exhaustive over subsets of five settings and two requests (thorough: sequences of two); random beyond." + CODE)

prop("V05", "Editors indent as the server says, as soon as it does",
     "When the server tells the settings of files, the active editor gets what is told of its document at once, and any other editor when it becomes active, until the server "
     "tells again: then only that counts. Spaces or tabs and the indentation are as told; with spaces a tab is as wide, with tabs as wide as the user's settings for "
     "R in that place say. Documents it doesn't tell of, and other options, are left alone. Documents are the same if their URIs are, however spelled.",
     ["histories"], "every sequence of notices and changes of the active editor, for documents of every scheme",
     "a test waits for one notice about one file",
     [CODE_DIR + "notification/sync-file-settings.ts", CODE_DIR + "lsp.ts"],
     [("FileSettingsState", CODE_DIR + "notification/sync-file-settings.ts")],
     "editors and notices as a machine with invariants, all its short histories replayed; recorded random sessions validated",
     "Three documents and four steps exhaustively (thorough: five); what holds between a restart and the first notice is open." + CODE)

prop("V06", "Initializing and formatting a folder touch it as promised, and only it",
     "The commands act on the only folder or the one the user picks (by place in the list, names may be the same), say so if there is none, and do nothing if the user leaves. First all open, "
     "changed documents inside of it (not untitled ones, not those of folders whose path merely begins the same) are saved if the user says Yes; unless all are, nothing happens. Formatting runs the "
     "server's binary as `format FOLDER --no-color` in it, and reports success only if it exits with 0, else offers the logs. Initializing creates air.toml (unless there is one or .air.toml), "
     ".vscode/extensions.json (unless there), sets format-on-save and formatter for R and Quarto in the folder's settings keeping its others, and adds the missing patterns to an existing "
     ".Rbuildignore with its line ends. Doing it again changes nothing.",
     ["inputs", "histories"], "every state of folders, files, documents, settings, answers of the user and outcomes of the formatter",
     "there are no tests of the commands",
     [CODE_DIR + "workspace.ts", CODE_DIR + "command/workspace-folder-initialization.ts", CODE_DIR + "command/workspace-folder-formatting.ts", CODE_DIR + "process.ts"],
     [("workspaceFolderInitialization", CODE_DIR + "command/workspace-folder-initialization.ts"),
      ("workspaceFolderFormatting", CODE_DIR + "command/workspace-folder-formatting.ts"), ("selectWorkspaceFolder", CODE_DIR + "workspace.ts")],
     "the commands as functions of the editor's world with invariants, all small worlds and answers replayed; recorded random sessions validated",
     "Exhaustive over small sets of files, documents and answers, for one command (thorough: two); random sequences. Files with mixed line ends are out of scope." + CODE)

prop("V07", "Views show what the server makes of the active R file",
     "A view of a document's representation is what the server answers about the active editor's document and cursor, of the kind asked for, if it is a file of R code, and empty otherwise; "
     "all views are refreshed when an R file is changed and when one becomes active, and not because of other documents. Showing all shows each once, in order.",
     ["histories"], "every sequence of views, changes and active editors",
     "there are no tests of the views",
     [CODE_DIR + "commands.ts", CODE_DIR + "request/viewFile.ts", CODE_DIR + "r-files.ts"],
     [("viewFileUsingTextDocumentContentProvider", CODE_DIR + "request/viewFile.ts")],
     "views as a function of the active editor in the model, all short histories replayed; recorded random sessions validated",
     "Four documents and two steps exhaustively (thorough: three), random beyond." + CODE)


def main():
    claimed = {f[:-3] for f in os.listdir(os.path.join(VERIF, "checks")) if f[0].isupper() and f.endswith(".py")}
    with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
        for p in PROPS:
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                "anchors": {"files": p["files"],
                            "mechanism": [{"name": n, "where": w} for n, w in p["mechanism"]],
                            **({"observe_at": list(p["observe"])} if p["observe"] else {}),
                            **({"state": [dict(zip(("name", "meaning", "where"), s)) for s in p["state"]]} if p["state"] else {}),
                            },
            }) + "\n")
            assert len(p["title"]) <= 80, p["title"]
            for path in p["files"]:
                assert os.path.exists(os.path.join("/repo", path)), path
    ids = [p["id"] for p in PROPS]
    assert len(set(ids)) == len(ids)
    checks, na = [], []
    for p in PROPS:
        if p["na"]:
            assert p["id"] not in claimed
            na.append({"property": p["id"], "reason": p["na"]})
        elif p["id"] not in claimed:
            na.append({"property": p["id"], "reason": "its specification and conformance check are not built yet"})
        else:
            checks.append({
                "property": p["id"], "quick_cmd": f"python3 check.py {p['id']}",
                "thorough_cmd": f"python3 check.py {p['id']}",
                "technique": TECH + p["technique"], "level": p["level"], "level_note": p["note"],
            })
    missing = claimed - set(ids)
    assert not missing, missing
    manifest = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na}
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
        json.dump(manifest, f, indent=1)
        f.write("\n")
    try:
        import jsonschema
        jsonschema.validate(manifest, json.load(open("/root/.vp/MANIFEST.schema.json")))
        schema = json.load(open("/root/.vp/PROPERTIES.schema.json"))
        for line in open(os.path.join(VERIF, "properties.jsonl")):
            jsonschema.validate(json.loads(line), schema)
    except ImportError:
        print("jsonschema not there (use python3-vt): not validated", file=sys.stderr)


if __name__ == "__main__":
    main()
