#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a generator so the text stays reviewable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a,b,c in state],
                     mechanism=[dict(name=a, where=b) for a,b in mech], observe_at=list(observe), hook_needed=None)))
S='src/src/'; C='src/src/commands/'
p('C01','Output is complete, ordered and independent of I/O timing',
  'Every byte the shell decides to send is handed to the output interface exactly once and in order, and a byte the interface refuses is offered again, unchanged, until it is accepted. Every input byte the interface delivers is consumed exactly once and in order. The accepted output stream, the callbacks invoked and the final state are a function of the input bytes and application actions only: they do not change with service-call pacing, input gaps or output back-pressure.',
  ['schedules','fault_sequences','inputs'],
  'all schedules of ush_service calls, all input arrival gaps, all patterns of refused writes and stalled links, all input streams',
  'Functional tests drive one always-ready loopback interface and one fixed loop; refused writes are a single unit case, never in the middle of a multi-part message, a dump, a completion or a prompt.',
  [S+'ush_write_utils.c',S+'ush_write.c',S+'ush_read_char.c',S+'ush.c'],
  [('write position only advances on an accepted byte',S+'ush_write_utils.c'),('one state machine step per service call',S+'ush.c')],
  [('write_pos','index of the next byte to offer',S+'ush_write_utils.c')],['io->read','io->write','return value of ush_service'])
p('C02','Line editing: echo, backspace, escape sequences, Ctrl+C, overflow',
  'Each typed byte is echoed exactly as the terminal protocol requires (ordinary bytes as themselves, CR as CRLF, backspace/DEL as erase only when the line is not empty, escape sequences, TAB and NUL not echoed, Ctrl+C as ^C plus a fresh prompt with the line dropped), and the line handed to the parser is exactly the echoed line after the edits. A line that fills the input buffer drops what was typed so far and editing continues; nothing is echoed or stored twice and no key is left half-processed for the next line.',
  ['inputs','histories','schedules'],
  'all byte streams (including control bytes, noise, NUL, 8-bit bytes, split escape sequences, over-long lines), all buffer sizes, all arrival schedules',
  'Tests type a few short well-formed lines into a 128 byte buffer; over-long lines, edits at buffer boundaries and escapes interleaved with edits are not combined.',
  [S+'ush_read_char.c',S+'ush_read_utils.c'],
  [('echo service',S+'ush_read_utils.c'),('escape state machine',S+'ush_read_utils.c'),('read start clears the line',S+'ush_read_utils.c')],
  [('in_pos','length of the edited line',S+'ush_read_utils.c'),('ansi_escape_state','escape sequence progress',S+'ush_read_utils.c')],['io->read','io->write','argv seen by callbacks'])
p('C03','Command lines are split into exactly the arguments typed',
  'For every line the argc/argv passed to the callback is the one the grammar defines: arguments separated by one or more spaces, double quotes group and may open or close anywhere in a word, a backslash makes the next character literal inside and outside quotes, \\x sequences reach the command undecoded, and argv[argc] is NULL. Blank lines run nothing. A line never inherits quoting, escapes or arguments from an earlier line.',
  ['inputs','histories'],
  'all lines over the full byte alphabet, in any sequence of lines, at any buffer size',
  'Unit tests check one character at a time and functional tests a few dozen lines; combinations of quotes, escapes, terminators and carry-over between lines are not covered.',
  [S+'ush_parse_char.c',S+'ush_parse_utils.c',S+'ush_parse.c'],
  [('parser state machine',S+'ush_parse_utils.c'),('argument array built from the input buffer',S+'ush_parse_utils.c'),('parse start resets flags',S+'ush_parse_utils.c')],
  [('args_count','arguments found',S+'ush_parse_utils.c'),('escape_flag','pending escape',S+'ush_parse_utils.c')],['file exec callback','descriptor exec callback'])
p('C04','A command line runs exactly the right target, once, or reports why not',
  'For every line the first argument selects exactly one target: a registered command of that exact name (latest added group first, built-ins last), else the file that the argument names as a path relative to the current directory. The target callback runs exactly once with its own descriptor, after the optional general callback; an unknown name yields the syntax-error status and a non-executable file the not-executable status, and in those cases nothing is executed. Every command line ends in exactly one fresh prompt.',
  ['inputs','histories','configurations'],
  'all command names and paths, all trees and command groups, all command histories',
  'Tests use a fixed tree and a handful of names; shadowing between groups, prefixes of names, files in sibling directories and interaction with later registrations are not exercised together.',
  [S+'ush_parse.c',S+'ush_file.c',S+'ush_commands.c',S+'ush_process.c'],
  [('lookup order',S+'ush_file.c'),('dispatch and status',S+'ush_parse.c')],[],['exec callbacks','output stream'])
p('C05','Current directory and path resolution follow the mounted tree',
  'The current directory always designates a mounted directory: it changes only through a successful cd (or application call) to an existing directory, which makes it exactly the directory named, resolving absolute and relative paths, "." and ".." (never above root) and one trailing slash; failed changes report not-found and leave it unchanged. The prompt shows its last component and pwd prints its full path. Every command taking a path resolves it with the same rules, and a path too long for the configured maximum names nothing.',
  ['inputs','histories','configurations'],
  'all path strings, all trees, all sequences of cd/pwd/path-taking commands, all path length limits',
  'Tests enumerate a few dozen paths in one tree with a 256 byte limit; deep nesting, mixed dot sequences, names that prefix each other and limits smaller than the line are outside.',
  [S+'ush_node.c',S+'ush_node_utils.c',S+'ush_utils.c',C+'ush_cmd_cd.c',C+'ush_cmd_pwd.c',S+'ush_prompt.c'],
  [('absolute path construction',S+'ush_node.c'),('dot-segment collapse',S+'ush_utils.c'),('per-level lookup',S+'ush_node.c')],
  [('current_node','current directory',S+'ush_node_utils.c')],['output stream','return values of ush_node_set_current_dir'])
p('C06','cat outputs exactly the files\' bytes or an error, never a mixture',
  'cat of one or more readable files outputs exactly the concatenation of each file\'s bytes, in argument order, binary-safe and of any length, each getter being asked exactly once per occurrence at the time its turn comes, followed by the prompt. If any argument is missing or unreadable when the line is entered, only the status for the first offender is printed and no getter is called. A getter that returns no data contributes nothing, and a file that vanished meanwhile never crashes the shell.',
  ['inputs','schedules','histories','fault_sequences'],
  'all file contents and sizes, all argument lists, all back-pressure schedules, files whose data changes, shrinks to nothing or disappears during the transfer',
  'Tests cat small constant text files over an ideal link.',
  [C+'ush_cmd_cat.c',S+'ush_write_utils.c',S+'ush_process.c'],
  [('check-all-then-stream',C+'ush_cmd_cat.c'),('binary write pointer',S+'ush_write_utils.c')],
  [('process_index_item','next argument to stream',C+'ush_cmd_cat.c')],['get_data callbacks','output stream'])
p('C07','xxd dumps are faithful to the data',
  'For a readable file xxd asks the getter exactly once and prints consecutive lines of offset, hexadecimal bytes and printable characters which decode back to exactly the data returned: every byte once, at its offset, with padding only after the end, for any size (at least one line). Wrong usage, missing or unreadable files yield only the matching status.',
  ['inputs','schedules','configurations','fault_sequences'],
  'all contents and sizes (0, multiples of the column count and off-by-one sizes, all byte values), all column configurations, all schedules',
  'Tests dump two small files with 8 columns.',
  [C+'ush_cmd_xxd.c',S+'ush_utils.c'],
  [('line assembly in the output buffer',C+'ush_cmd_xxd.c')],
  [('process_index_item','data offset',C+'ush_cmd_xxd.c')],['get_data callback','output stream'])
p('C08','ls shows exactly the directory\'s entries with the right attributes',
  'ls prints, for the named (default current) directory, the self entry, the parent entry exactly when it is not root, every child directory mounted on it and every file in it, each exactly once, in mount and table order, with flags r, w, x, h telling exactly which capabilities the file has and with its name and description; nothing else is printed. A missing directory or wrong usage yields only the matching status.',
  ['inputs','histories','configurations','schedules'],
  'all trees, file tables, names and descriptions (present or absent), mount/unmount histories, schedules and style/alignment configurations',
  'Tests list a fixed tree of a few nodes with fixed attributes.',
  [C+'ush_cmd_ls.c',S+'ush_node_mount.c'],
  [('listing state machine',C+'ush_cmd_ls.c')],
  [('process_child_node','child cursor',C+'ush_cmd_ls.c'),('process_index_item','file cursor',C+'ush_cmd_ls.c')],['output stream'])
p('C09','help lists every command once and prints the requested text',
  'help without arguments lists every registered command of every group exactly once, latest group first and built-ins last, with its description when it has one. help with one argument prints exactly the help text of the command or file it names, byte for byte, or the not-found / no-help status; other usage yields wrong-arguments.',
  ['inputs','histories','configurations','schedules'],
  'all command tables and groups, registration histories, names, texts and schedules',
  'Tests use one or two groups with fixed contents.',
  [C+'ush_cmd_help.c',S+'ush_commands.c',S+'ush_file.c'],
  [('listing state machine',C+'ush_cmd_help.c')],[('process_node','group cursor',C+'ush_cmd_help.c')],['output stream'])
p('C10','echo writes exactly the decoded bytes, exactly once, or reports why not',
  'echo TEXT > FILE calls the file\'s setter exactly once with exactly the bytes TEXT denotes after decoding \\xNN and backslash sequences (any byte value, length included), and calls no setter when the file is missing, not writable or the usage is wrong, printing only the matching status. echo TEXT prints exactly the decoded text and a newline, echo alone a newline.',
  ['inputs','histories','schedules'],
  'all texts over quoting, escapes and hex sequences (valid, invalid and truncated), all targets and usages',
  'Tests try a few literals; the unit test of the decoder does not go through the line editor and parser, which share the buffer with it.',
  [C+'ush_cmd_echo.c',S+'ush_utils.c',S+'ush_parse_utils.c'],
  [('in-place decoder',S+'ush_utils.c'),('usage dispatch',C+'ush_cmd_echo.c')],[],['set_data callback','output stream'])
p('C11','TAB completes to exactly what the visible names allow',
  'For a line without NUL bytes, TAB considers exactly the commands, the current directory\'s files and the relevant child directories whose names start with the word being typed. With one candidate the word becomes its name, with several it is extended to their longest common prefix, and when nothing can be added every candidate is listed once followed by a fresh prompt and the unchanged line; with none nothing happens. What is shown on the terminal always equals the line that will be parsed, and a completion that does not fit the input buffer never damages the line.',
  ['inputs','histories','configurations','schedules'],
  'all partial lines and cursor states, all name sets (shared prefixes, names equal to prefixes of others, duplicates across groups), repeated TABs, all buffer sizes and schedules',
  'Tests complete a few words in one tree with a 128 byte buffer and never check that the edited line equals the echoed one afterwards.',
  [S+'ush_autocomp.c',S+'ush_autocomp_state.c',S+'ush_autocomp_utils.c'],
  [('candidate enumeration in stages',S+'ush_autocomp_utils.c'),('prefix extension loop',S+'ush_autocomp_state.c')],
  [('autocomp_suffix_len','characters added by this TAB',S+'ush_autocomp_utils.c'),('autocomp_count','candidates',S+'ush_autocomp_utils.c')],['output stream','argv of the line executed afterwards'])
p('C12','No input, history or configuration makes the shell touch memory it must not',
  'For every input stream, buffer size accepted by initialization, path limit, tree and command history, the shell stays inside the buffers and objects it was given: it never reads or writes out of bounds, never uses uninitialised data nor, outside a listing or completion in progress, removed directories or command groups, never trips an internal assertion, and never modifies memory the application declared constant (descriptors, names, texts and file data). Sizes too small to work with are refused by initialization (assertion).',
  ['inputs','histories','configurations','fault_sequences','schedules'],
  'all byte streams, all accepted buffer sizes and path limits, all trees and histories of API calls, all callback failures',
  'Tests run without sanitizers, with buffers far larger than the inputs.',
  [S+'ush_autocomp_state.c',S+'ush_autocomp_utils.c',S+'ush_node.c',S+'ush_file.c',S+'ush.c',C+'ush_cmd_ls.c',C+'ush_cmd_help.c',C+'ush_cmd_xxd.c',C+'ush_cmd_cat.c'],
  [('index wrap in the input buffer',S+'ush_read_utils.c'),('bounded formatting',C+'ush_cmd_ls.c'),('path length limit',S+'ush_node.c')],[],['AddressSanitizer/UBSan reports','guard pages','USH_ASSERT'])
p('C13','The directory tree always equals the history of mounts and unmounts',
  'Mounting succeeds exactly when the path is not mounted and its parent is (root first), unmounting exactly when the directory is mounted and has no child directory; each reports the documented status, and a call that fails changes nothing. After any history, lookup, ls, cd, completion and execution see exactly the directories currently mounted with their own files, a removed directory\'s memory is free for reuse once no listing or completion is in progress, and the shell keeps working when the directory it stands in is removed.',
  ['histories','inputs','schedules'],
  'all histories of mount and unmount (including repeated, reordered, failing and re-used nodes) interleaved with shell activity',
  'Tests mount a fixed tree once; unmounting is tested on one node.',
  [S+'ush_node_mount.c',S+'ush_node.c',S+'ush_node_utils.c'],
  [('sibling list insert and unlink',S+'ush_node_mount.c'),('lookup by level',S+'ush_node.c')],
  [('children/next','tree links',S+'ush_node_mount.c'),('current_node','current directory',S+'ush_node_mount.c')],['return statuses','output stream'])
p('C14','Command groups can be added and removed at run time consistently',
  'After any history of adding and removing command groups, exactly the commands of the currently registered groups (and the configured built-ins) are executable, listed, documented and completed; a newer group shadows older ones of the same name and uncovers them again when removed. Removing a group that is not registered reports not-found and changes nothing.',
  ['histories','inputs','schedules'],
  'all add/remove histories (any order, repeated, re-added) interleaved with shell activity',
  'Tests add two groups and remove one.',
  [S+'ush_commands.c',S+'ush_file.c',C+'ush_cmd.c'],
  [('group list insert and unlink',S+'ush_commands.c')],[('commands','group list head',S+'ush_commands.c')],['return statuses','output stream','exec callbacks'])
p('C15','Shell instances are independent of each other',
  'Any number of shells serviced in any interleaving, also from within one another\'s callbacks, each behave, byte for byte and callback for callback, as if they ran alone, even when they share descriptors\' constant tables; every callback receives the shell it belongs to.',
  ['schedules','inputs','histories'],
  'all interleavings of service calls and API calls of several shells, including shells in the middle of multi-step commands, completions and formatted output',
  'Every test runs one shell; the promise "no static variables" is never exercised by two shells at once.',
  [S+'ush.c',S+'ush_write_utils.c',S+'ush_autocomp_utils.c',C+'ush_cmd_ls.c',C+'ush_cmd_xxd.c'],
  [('all state lives in the shell object','src/inc/ush_types.h')],[],['per-shell output stream and callbacks'])
p('C16','Reset, re-initialisation and power cycles recover from any point',
  'A reset at any point of any activity abandons it and produces, from the next byte on, the welcome line and a root prompt, after which the shell behaves as freshly started except for the tree and commands, which stay. Deinitialising clears the shell object and every mounted directory; initialising again, or initialising over arbitrary memory contents as after a power cycle, gives a shell indistinguishable from a first start, and Ctrl+C while typing always yields a clean prompt with an empty line.',
  ['crash_points','histories','inputs','schedules'],
  'every point between two service calls at which a reset, deinit/init or power loss can strike, in every activity, with arbitrary previous memory contents',
  'Tests reset an idle shell once and initialise one zeroed object.',
  [S+'ush_reset.c',S+'ush.c',S+'ush_read_utils.c',S+'ush_node.c'],
  [('reset restarts the output state machine',S+'ush_reset.c'),('init sets all list heads',S+'ush.c'),('deinit clears object and tree',S+'ush.c')],[],['output stream after recovery'])
p('C17','The service call never blocks and always makes progress',
  'Each service call performs a bounded amount of work: at most one read and one write on the interface and at most one application callback sequence; it returns "nothing to do" whenever a read found no input, and otherwise only when all output is delivered and the next call asks for input. While output is refused it only re-offers the same byte; once the link accepts again every command, listing, dump, completion and prompt finishes within a number of calls bounded by its output and data size, and the shell is ready for input.',
  ['schedules','fault_sequences','inputs'],
  'all inputs, activities, stall patterns and trees; liveness once faults stop',
  'Tests loop until output appears and never count calls, reads or writes or check the busy flag in every state.',
  [S+'ush.c',S+'ush_read.c',S+'ush_write.c',S+'ush_process.c',S+'ush_autocomp.c'],
  [('single step dispatcher',S+'ush.c')],[('state','current step',S+'ush.c')],['io call counts per service call','return value of ush_service'])
p('C18','Printing functions deliver exactly the requested text and return to the prompt',
  'Text printed from a command callback or by the application while the shell is idle (plain, without newline, status, formatted, flushed output buffer) is delivered exactly, followed by the newline the function promises and one fresh prompt. Consecutive formatted prints from one place accumulate in order into one message; formatted text that does not fit the output buffer is cut and marked with an error text and never exceeds the buffer; what an earlier, already delivered message contained never reappears or counts against a later one.',
  ['inputs','histories','schedules','configurations'],
  'all texts, lengths and output buffer sizes, all combinations of print calls, from callbacks and between service calls, under all link schedules',
  'Tests print fixed strings through an ideal link and check one overflow case per size.',
  [S+'ush.c',S+'ush_write_utils.c'],
  [('write pointer and continuation state',S+'ush.c'),('bounded formatting with overflow marker',S+'ush.c')],
  [('write_buf/write_size/write_pos','message being sent',S+'ush.c')],['output stream'])
p('C19','Disabled features and changed settings affect only themselves',
  'In every supported build configuration (any subset of built-in commands, completion on or off, terminal styles on or off, any alignment, dump width and translation strings) the shell behaves as the default build restricted to the enabled features: disabled commands are unknown, TAB is ignored without completion, styles off removes only the colour codes, translated texts replace the default ones, and everything else is unchanged.',
  ['configurations','inputs','schedules'],
  'a set of build configurations covering every switch in both positions, all inputs and schedules within each',
  'Tests build exactly one configuration.',
  ['src/inc/ush_preconfig.h','src/config/posix/ush_config.h','src/config/arduino/ush_config.h',C+'ush_cmd.c',S+'ush_utils.c','src/inc/ush_shell.h'],
  [('preprocessor switches','src/config/posix/ush_config.h'),('built-in command table',C+'ush_cmd.c')],[],['output stream per configuration'])
p('C20','The shipped example applications\' devices and files behave as advertised',
  'In the demo application, whatever is typed: memory devices read back what was written to them and keep the rest, writes never go beyond a device, read-only and null devices ignore or refuse writes, the hostname file shows and changes the prompt\'s host within its length limit, uptime reports the seconds elapsed on the system clock, print echoes its argument, and reset restarts the shell. In the Arduino sketches the LED follows toggle, set and writes to /dev/led and nothing else, and is read back as it is; time reads the board\'s milliseconds, reboot reports that it is not supported, info.txt reads its text; every refused serial byte is offered again and no typed byte is lost. After a power cycle at any moment each of them starts as new.',
  ['inputs','histories','schedules','fault_sequences'],
  'all command histories on the examples\' trees, all write sizes and contents, all clock readings and random values, refused output bytes, power cycles at any moment',
  'The examples have no tests.',
  ['examples/demo_linux/shell.c','examples/demo_linux/fs/path/dev.c','examples/demo_linux/fs/path/etc.c','examples/demo_linux/fs/path/bin.c','examples/demo_linux/commands.c','examples/demo_linux/interface.c','examples/DemoBasic/DemoBasic.ino','examples/DemoAdvanced/node_dev.cpp','examples/DemoAdvanced/node_bin.cpp','examples/DemoAdvanced/shell.cpp','examples/Initialize/Initialize.ino'],
  [('device setters and getters','examples/demo_linux/fs/path/dev.c'),('hostname setter','examples/demo_linux/shell.c')],[],['stdio of the demo and Serial, pins and clock of the sketches behind stand-ins'])
p('C21','The library needs no heap and only a bounded stack',
  'Whatever the input and history, the library performs no dynamic allocation, and the stack one service call uses is bounded by the configured path limit, the input buffer and the tree depth, never by data sizes, file counts or how long the shell has been running.',
  ['inputs','histories','schedules'],
  'all input streams, trees, data sizes and lengths of operation',
  'No test measures allocation or stack.',
  ['src/src'],
  [('caller-provided buffers','src/inc/ush_types.h'),('variable-length arrays bounded by path limit and argument count',S+'ush_node.c')],[],['malloc family interposed during library calls','stack watermark'])
p('C22','A multi-step command is driven step by step and never outlives itself',
  'When a callback starts a multi-step (processing) command, the processing callback of exactly the file it named is invoked with that descriptor and its own shell, one invocation per service call: first in the start step, then in the step chosen by the previous invocation, and only when everything that invocation wrote has been accepted by the link; no input is consumed meanwhile. Text and binary data of any length that a step writes are delivered exactly, and the values a command puts into the shell\'s processing fields, before it starts or in a step, are unchanged at its next step. The command is never invoked again once it finished, printed a message, was replaced by another command, or the shell was reset; it ends with exactly one fresh prompt, also when the named file has no processing callback.',
  ['inputs','schedules','histories','crash_points'],
  'all processing commands (any sequence of steps, writes, waits, API calls and hand-overs to another file), all link schedules, resets, power cycles and application calls at any point between steps',
  'Tests of the processing state machine call one function on a hand-filled object; no test runs an application-defined processing command, and none interrupts one.',
  [S+'ush_process.c',S+'ush.c',S+'ush_write_utils.c',S+'ush_write.c',S+'ush_parse.c',S+'ush_reset.c'],
  [('process start',S+'ush_process.c'),('processing step dispatcher',S+'ush_process.c'),('write continues in the chosen state',S+'ush_write_utils.c')],
  [('process_file','file whose processing callback is active',S+'ush_process.c'),('process_stage, process_index, process_index_item, process_node','progress of the running command','src/inc/ush_types.h')],['processing callbacks','io->read calls','output stream'])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl')
with open(out,'w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
import sys
print(len(P), [ (x['id'],len(x['title'])) for x in P if len(x['title'])>80])
