#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept here as readable source)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=hook)))

B = 'src/BipsPl/'; E = 'src/EnginePl/'; F = 'src/EngineFD/'; T = 'src/TopComp/'; L = 'src/Linedit/'

p('C01', 'Input fidelity: every source byte is seen exactly once, in order',
  'A program that reads a stream with any mix of the get, peek, unget and read predicates sees exactly the bytes of the source, in order, each consumed exactly once (peeks consume nothing, an unget is seen again by the next input), however the operating system cuts, delays or interrupts the delivery. '
  'At the end of the source the stream behaves as its eof_action says (error raises, eof_code keeps returning end of file, reset reads on and sees data that arrived later). '
  'A read the operating system fails is reported as an exception and is never taken for data or for a normal end of file (except on the standard input, whose failing read counts as its end); an interrupted read is simply retried.',
  ['schedules', 'inputs', 'fault_sequences'],
  'every source content, every split of its delivery into short reads, EINTR and late data, every failing read, every interleaving of input predicates over several open streams, every buffering mode and eof_action',
  'The existing tests read small ordinary files through one buffer fill; they never see a short read, an interrupted or failing read, data that arrives late, or a long random mix of get/peek/unget over several streams.',
  [B+'stream_supp.c', B+'stream_c.c', B+'char_io_c.c'],
  [('push-back buffer and read functions of a stream', B+'stream_supp.c: Pl_Stream_Getc, Pl_Stream_Peekc, Pl_Stream_Ungetc'), ('end-of-stream automaton', B+'stream_c.c: Pl_Check_Stream_Type, Pl_Test_End_Of_Stream'), ('input predicates', B+'char_io_c.c')],
  [('pb_char / pb_line_pos', 'characters given back to the stream', B+'stream_supp.h'), ('eof_reached', 'end of stream state', B+'stream_supp.h')],
  ['get_char/1,2 and friends, peek_*, unget_*, at_end_of_stream/0,1, read_term'])

p('C02', 'Output fidelity: a successful flush, close or exit means all bytes arrived',
  'The bytes that reach the file, pipe or terminal behind an output stream, and behind every mirror attached to it while the output was made, are exactly the bytes written to it, each once and in order, whatever the buffering mode and however the operating system cuts the writes. '
  'When flush_output or close succeeds, every byte written before has been handed to the operating system, and a normal exit of the program (halt) hands over whatever is still buffered. '
  'A write the operating system refuses (disk full, I/O error, broken pipe) is reported by an exception of that write or of the next flush_output or close, and is never lost silently.',
  ['schedules', 'inputs', 'fault_sequences'],
  'every sequence of output, flush, mirror and close operations over several streams, every buffering mode, every split of the writes and every write failure',
  'Tests write a few lines to files on a healthy disk; no test has a short, refused or failing write, or looks at what is on the disk at the instant a flush returns.',
  [B+'stream_supp.c', B+'stream_c.c', B+'char_io_c.c', B+'write_supp.c'],
  [('output functions and mirror fan-out', B+'stream_supp.c: Pl_Stream_Putc, Pl_Stream_Puts, Pl_Stream_Flush, Pl_Stream_Close'), ('exit-time flush', B+'stream_supp.c: Pl_Close_All_Streams'), ('close/flush predicates', B+'stream_c.c: Pl_Close_2, Pl_Flush_Output_1')],
  [('mirror', 'chain of mirror streams', B+'stream_supp.h')],
  ['put_char/1,2, put_byte, nl, write_term, flush_output, close/1,2, halt/0,1, add_stream_mirror/2'])

p('C03', 'Stream registry: streams, aliases and current streams stay consistent',
  'After every open, close, alias, mirror, set_input/set_output, see/tell or buffering operation, successful or not, the set of open streams, their properties, their aliases and mirrors, and the current input and output are exactly those the history of successful operations implies. '
  'An operation that raises an exception changes none of them, and a closed stream handle or its alias is never accepted again as if it were open. '
  'The process holds exactly one operating-system descriptor or resource per open file stream, also after failing opens and closes.',
  ['histories', 'fault_sequences'],
  'every history of stream operations, every failing open, close or seek at the operating system, including use of the enumerating predicates while streams come and go',
  'Tests make each stream call in isolation on a fresh process; they cannot reach states that need long open/close/alias histories, failing system calls, or descriptor exhaustion.',
  [B+'stream_supp.c', B+'stream_c.c', B+'stream.pl', B+'dec10io.pl'],
  [('stream table and alias table', B+'stream_supp.c: Pl_Add_Stream, Pl_Delete_Stream, Pl_Add_Alias_To_Stream'), ('open/close', B+'stream_c.c: Pl_Open_3, Pl_Close_2'), ('stream_property enumeration', B+'stream.pl')],
  [('pl_stm_tbl / pl_last_stm', 'table of streams', B+'stream_supp.c'), ('pl_alias_tbl', 'alias to stream', B+'stream_supp.c')],
  ['open/3,4, close/1,2, stream_property/2, current_stream/1, current_alias/2, current_input/1, current_output/1'])

p('C04', 'Repositioning and position counters agree with the data',
  'On a repositionable stream, set_stream_position to a position obtained earlier from that stream, and seek to an offset inside the file, make the next input or output happen at exactly that byte, with no trace of characters buffered, peeked or given back before. '
  'character_count, line_count and line_position always describe the next character to be read or written: they follow the characters actually transferred (or were set explicitly), and restoring a position restores them. '
  'A repositioning the operating system or the stream refuses raises an exception and leaves the stream usable at its old position.',
  ['histories', 'inputs', 'fault_sequences'],
  'every interleaving of reads, peeks, ungets, writes and repositionings on text and binary streams under any buffering and short reads, and every failing seek',
  'Tests reposition a fresh file a couple of times; the failures need an interleaving with pushed-back characters, end of file, partially filled buffers or failing seeks.',
  [B+'stream_supp.c', B+'stream_c.c'],
  [('position arithmetic', B+'stream_supp.c: Pl_Stream_Get_Position, Pl_Stream_Set_Position, Pl_Stream_Set_Position_LC, Update_Counters'), ('predicates', B+'stream_c.c: Pl_Set_Stream_Position_2, Pl_Seek_4')],
  [('char_count, line_count, line_pos', 'position counters', B+'stream_supp.h')],
  ['stream_property(S, position(P)), set_stream_position/2, seek/4, character_count/2, line_count/2, line_position/2, stream_line_column/3'])

p('C05', 'Sockets: connected peers exchange exactly the bytes written, errors surface',
  'Once socket_connect or socket_accept succeeds, what the program reads from the connection is exactly what the peer sent, in order, and what the peer receives is exactly what the program wrote and flushed, however the network segments or delays it, with both directions independent. '
  'A connection that is refused, unreachable, cut or closed by the peer is reported as an exception or as end of stream (plain failure for an unknown host name) and never as invented or dropped data; an address that cannot be used (too long, port out of range) is an error and never another address. '
  'Failed socket operations leave no stream or descriptor behind, closing releases every descriptor of the connection, and child processes do not hold connections open.',
  ['schedules', 'fault_sequences', 'histories'],
  'every interleaving of several connections, every segmentation, delay, half-close, refusal and reset by the peers, every failing socket call',
  'The existing socket tests run one loopback exchange in which the kernel delivers everything at once and nothing fails.',
  [B+'sockets_c.c', B+'sockets.pl', B+'stream_supp.c'],
  [('socket predicates', B+'sockets_c.c: Pl_Socket_Connect_4, Pl_Socket_Accept_4, Create_Socket_Streams'), ],
  [], ['socket/2, socket_bind/2, socket_listen/2, socket_connect/4, socket_accept/3,4, socket_close/1'])

p('C06', 'select/5 reports exactly the ready streams and respects its timeout',
  'select/5 returns, as sublists in the original order, exactly those input and output elements that can be read or written without blocking at the moment it returns, counting a character pushed back by a peek or an unget as readable (streams being unbuffered, as the manual asks). '
  'With a positive timeout it returns no later than that (two empty lists if nothing became ready) and never before unless something is ready; without a timeout (TimeOut =< 0) it waits until something is ready. A signal that interrupts the wait changes nothing, and an element that is no selectable open stream or descriptor is refused.',
  ['schedules', 'fault_sequences'],
  'every mixture of sockets, pipes, files and standard input, every arrival time of data relative to the timeout, interrupted waits',
  'Readiness depends on arrival times relative to the call and on data hidden in buffers, which real-time tests cannot control.',
  [B+'os_interf_c.c', B+'os_interf.pl'],
  [('descriptor sets and timeout', B+'os_interf_c.c: Pl_Select_5, Select_Init_Set, Select_Init_Ready_List')],
  [], ['select/5'])

p('C07', 'Child processes: data, status and descriptors are exact under failure',
  'shell, system, spawn, popen and exec give the child exactly the command and arguments asked for, connect its standard streams as requested (a new pipe, an open stream, the null device, error merged with output), hand it no end of another pipe of the program, carry every byte in both directions whatever the timing, and report the exit status or terminating signal the child really had (system/shell/spawn when it ends, wait for exec); what the program wrote on a stream before is in front of what the child writes there. '
  'When a pipe, a fork or the execution of the command fails, that is reported by an exception (plain failure when the flag os_error says so) or by the status, and the program goes on with no stream, descriptor or half-made child left behind; the child that cannot run its command ends at once and does nothing else. '
  'create_pipe yields a write end and a read end that carry all bytes in order, also to and from children and forked processes, and give end of file when the write end is closed everywhere.',
  ['schedules', 'fault_sequences', 'inputs'],
  'every command and argument list, every child behaviour (output timing, early exit, death by signal), every failing pipe/fork/exec call',
  'Tests run one or two well-behaved commands; child timing, deaths and failing system calls cannot be provoked from a test.',
  [B+'os_interf_c.c', B+'os_interf.pl', E+'os_spawn.c', E+'machine.c'],
  [('process predicates', B+'os_interf_c.c: Pl_Popen_3, Pl_Exec_5, Pl_Spawn_3, Pl_Prolog_Wait_2, Pl_Create_Pipe_2'), ('process creation', E+'os_spawn.c')],
  [], ['shell/0,1,2, system/1,2, spawn/2,3, popen/3, exec/4,5, wait/2, create_pipe/2'])

p('C08', 'File-system predicates do exactly what they say, or fail without damage',
  'make_directory, delete_directory, change_directory, working_directory, directory_files, rename_file, copy_file, delete_file, unlink, file_permission, file_exists and file_property have exactly the effect and answer that the file system state implies, and an operating-system failure is raised as a system error (or plain failure where documented or asked for by the flag os_error) and changes nothing, except that an interrupted copy may leave a first part of the source. '
  'Path names of any length and form (variables, home directories, dots, links) are expanded as documented or refused with an error. '
  'directory_files lists every entry exactly once. '
  'temporary_name and temporary_file return names that fit the template and do not exist at that moment, also when candidate names collide.',
  ['histories', 'fault_sequences', 'inputs'],
  'every history of file operations over a directory tree, every operating-system failure at any of the calls, every long or odd path, every collision of candidate names',
  'Tests touch one or two files on a healthy disk and never see a failing or racing operating-system call.',
  [B+'os_interf_c.c', B+'os_interf.pl', E+'os_path.c', B+'file.pl', B+'file_c.c'],
  [('file predicates', B+'os_interf_c.c: Pl_File_Prop_*, Pl_Directory_Files_2, Pl_Temporary_Name_2'), ('path handling', E+'os_path.c')],
  [], ['make_directory/1 ... file_property/2, temporary_name/2, temporary_file/3'])

p('C09', 'Clock and date predicates report the clock, and sleeping waits long enough',
  'real_time, system_time, user_time and statistics report the corresponding clock of the operating system (in milliseconds since the start of the process, and since the previous call for the second figure), and date_time and file dates are the broken-down local time of that clock. '
  'sleep/1 does not return before the requested time has passed unless it raises an exception, also when signals interrupt it, and not long after.',
  ['schedules', 'fault_sequences', 'histories'],
  'every sequence of clock readings, sleeps and work, every clock value, interrupted sleeps, and calls spread over seconds to weeks of simulated time',
  'Real-time tests cannot control the clock, cannot let weeks pass, and cannot interrupt a sleep at a chosen instant.',
  [B+'stat_c.c', B+'stat.pl', B+'os_interf_c.c', E+'machine.c'],
  [('clock sources', E+'machine.c: Pl_User_Time, Pl_System_Time, Pl_Real_Time'), ('sleep and dates', B+'os_interf_c.c: Pl_Sleep_1, Pl_Date_Time_1'), ('statistics', B+'stat_c.c')],
  [], ['real_time/1, cpu_time/1, user_time/1, system_time/1, statistics/2, date_time/1, sleep/1, file_property/2'])

p('C10', 'Logical update view: an iteration sees the database as it was when it began',
  'A call to a dynamic predicate, clause/2 or retract/1 enumerates, in order and each once, exactly the clauses that match and were present when it started, whatever asserts, retracts, abolishes and other iterations happen between its solutions. '
  'Immediately after each asserta, assertz, retract, retractall or abolish a new call sees the database with exactly that change, in clause order. '
  'No history of updates, backtracking, cuts and exceptions makes a clause come back, disappear, be duplicated or have its contents altered.',
  ['histories', 'schedules'],
  'every interleaving of nested suspended iterations, updates, cuts and exceptions, over clauses whose first argument is any mix of atoms, integers, floats, lists, structures and variables',
  'Tests do a few updates in a straight line; the reclaiming of erased clauses and the index chains only go wrong for particular interleavings of suspended iterators and updates.',
  [B+'dynam_supp.c', B+'assert_c.c', B+'assert.pl', B+'bc_supp.c'],
  [('dynamic clause chains, index and erase stamps', B+'dynam_supp.c: Pl_Add_Dynamic_Clause, Pl_Delete_Dynamic_Clause, Pl_Scan_Dynamic_Pred, Erase_All'), ],
  [('erase_stamp / add_stamp', 'life of a clause for the update view', B+'dynam_supp.h')],
  ['call of dynamic predicates, clause/2, asserta/1, assertz/1, retract/1, retractall/1, abolish/1'])

p('C11', 'Exceptions and backtracking restore exactly the state of the restored point',
  'When a goal throws, control reaches the innermost active catch/3 whose catcher unifies with a copy of the ball, every binding made since that catch was called is undone, and execution continues as if the recovery goal had been called there; a catch that was exited deterministically or cut is no longer active. '
  'Backtracking and cut restore or discard exactly the choice points the program text implies, at any nesting depth of catch, call, if-then-else, negation, findall and cut. '
  'This holds wherever the exception is raised: in user code, a built-in, an operating-system failure or a callback.',
  ['histories', 'programs', 'fault_sequences'],
  'every interleaving of nested catches, choice points, cuts, re-tries and throws, with exceptions from user code and from built-ins hit by injected failures',
  'Tests raise one exception at one place; the state restored depends on what the history left on the trail, the choice-point stack and the environment stack.',
  [E+'wam_inst.c', E+'engine.c', B+'throw_c.c', B+'catch.pl', B+'throw.pl', B+'control.pl', B+'call_args.pl'],
  [('choice points and trail', E+'wam_inst.c: Pl_Create_Choice_Point, Pl_Delete_Choice_Point, Pl_Untrail'), ('catch/throw', B+'catch.pl, '+B+'throw_c.c')],
  [], ['catch/3, throw/1, call/N, !, ->, \\+, findall/3'])

p('C12', 'Global variables: assignments keep or undo their effect exactly as documented',
  'g_assign survives backtracking and exceptions, g_assignb and g_link are undone by backtracking past them and by a caught exception, and g_read always returns the value the history implies, for simple values, arrays, automatic arrays and array elements alike. '
  'Values stored are copies that later bindings or backtracking do not alter, and g_inc/g_dec/g_set_bit/g_array_size and the stack-like sequences over them are exact.',
  ['histories'],
  'every interleaving of assignments, choice points, backtracking and exceptions, every term and array shape and index',
  'Tests assign and read in a straight line; undo records only matter across particular interleavings of choice points and exceptions.',
  [B+'g_var_inl_c.c', B+'g_var_inl.pl'],
  [('global-variable cells and undo records', B+'g_var_inl_c.c: G_Assign, G_Copy_Element, Trail_Undo')],
  [], ['g_assign/2, g_assignb/2, g_link/2, g_read/2, g_array/..., g_inc/1.., g_dec/1..'])

p('C13', 'Resource exhaustion stops cleanly: right answer or a reported fatal error',
  'Under any size of the global, local, trail and constraint stacks, any limit on atoms, and any failing memory allocation, a program either produces exactly the output it produces with ample resources, or stops with a nonzero exit status and a message naming what was exhausted, its output up to then being a prefix of the correct one. '
  'It never crashes by an unhandled signal, never hangs, never produces a wrong answer and never reports success after losing work. Terms nested deeper than the stack of the process allows the recursive C routines are not covered.',
  ['configurations', 'fault_sequences', 'programs'],
  'every combination of stack sizes, every index of a failing allocation, over programs that exercise unification, copying, parsing, sorting, assert, findall, atoms and constraints',
  'Tests run with default (ample) sizes; each overflow and each failing allocation is its own crash point.',
  [E+'stacks_sigsegv.c', E+'engine.c', E+'misc.c', E+'atom.c', E+'if_no_fd.c', F+'fd_inst.c'],
  [('guard pages and fault handler', E+'stacks_sigsegv.c'), ('checked allocation', E+'misc.c: Pl_Malloc_Check, Pl_Realloc_Check'), ('atom table', E+'atom.c')],
  [], ['process exit status, standard output and error'])

p('C14', 'findall, bagof, setof and forall are exact and re-entrant under aborts',
  'findall/3,4, bagof, setof, forall and aggregate-style loops built on them return exactly the instances of the template, in order (sorted groups for setof and bagof as documented), at any nesting, when collections are suspended, restarted, abandoned by cut, exception or failure while others are in progress. '
  'The results are copies independent of later bindings, and an abandoned collection leaves nothing behind that another collection could pick up.',
  ['histories', 'schedules'],
  'every nesting and interleaving of collections that complete, fail, are cut or throw, with templates and witnesses of any shape',
  'Tests collect in straight-line code; the solution store is one global stack that only breaks when collections are abandoned in particular nestings.',
  [B+'all_solut_c.c', B+'all_solut.pl'],
  [('solution stack', B+'all_solut_c.c: Pl_Store_Solution_1, Pl_Recover_Solutions_4, Pl_Free_Variables_4')],
  [], ['findall/3,4, bagof/3, setof/3, forall/2'])

p('C15', 'Ctrl+C at any instant: continue is transparent, abort leaves a sane top level',
  'Whenever the user interrupts a running or reading program, answering continue makes the program go on as if nothing had happened, answering abort returns to the top level with all bindings undone and the database, streams and flags as the completed operations left them, and answering exit ends the process with its streams flushed. '
  'Several interrupts in a row, and interrupts during input, output, sleeping or waiting, behave the same.',
  ['schedules', 'crash_points'],
  'every instant of delivery of the interrupt and every sequence of answers',
  'The instant of a signal cannot be controlled from a test; there is no test that sends one.',
  [L+'ctrl_c.c', B+'top_level_c.c', B+'top_level.pl', B+'stream_supp.c'],
  [('signal handler and menu', L+'ctrl_c.c'), ('resume/abort actions', B+'top_level_c.c: Ctrl_C_Manager')],
  [], ['terminal dialogue, results of the goals'])

p('C16', 'Line editor: the line returned is the one the keystrokes spell',
  'For every sequence of keystrokes the line handed to the program is the text that the documented editing keys produce (insertion, deletion, movement, transposition, case change, kill and yank, history recall, completion), however the bytes of multi-byte keys are cut or delayed, and what the screen shows is that line with the cursor at the editing position. '
  'Lines of any length and any number of lines leave memory intact, the history holds the entered lines in order, and end of input is reported once as end of file.',
  ['inputs', 'schedules', 'histories'],
  'every sequence of keys, line lengths up to several times the internal buffers, screen widths, chunkings of the key bytes and interruptions',
  'Interactive input is not tested at all: the tests run with redirected input.',
  [L+'linedit.c', L+'terminal.c', L+'completion.c', L+'char_io.h', B+'stream_supp.c'],
  [('editing loop', L+'linedit.c: Pl_LE_FGets'), ('terminal input/output', L+'terminal.c'), ('history', L+'linedit.c: History_*')],
  [], ['lines read from a terminal, screen contents'])

p('C17', 'Constraint propagation: the result does not depend on the posting order',
  'For any set of finite-domain constraints over small domains, every order of posting them, interleaved with any choice points, backtracking and labelling heuristics, gives the same set of solutions, namely exactly the assignments that satisfy all constraints. '
  'Backtracking past a constraint or an instantiation restores every domain exactly as it was before, and propagation only ever removes values that belong to no solution.',
  ['schedules', 'inputs', 'histories'],
  'every posting order, every propagation queue order, every interleaving with backtracking, over all constraint predicates on small domains',
  'Tests post each constraint once in one order; order dependence and wrong undo need particular interleavings.',
  [F+'fd_inst.c', F+'fd_range.c', 'src/BipsFD/'],
  [('propagation queue and trailing of domains', F+'fd_inst.c'), ('domains', F+'fd_range.c')],
  [], ['#=/2 ... fd_labeling/2, fd_dom/2'])

p('C18', 'gplc and pl2wam stop cleanly when a compilation stage fails',
  'When any stage of a compilation (Prolog translation, WAM translation, assembly, C compilation, linking) fails, dies by a signal, cannot be started or cannot write its output, gplc stops, reports a nonzero status, runs no later stage, and removes every intermediate file it made. '
  'When all stages succeed it reports 0, has run exactly the stages the files and options call for, in order, each once per file, and leaves only the requested outputs. '
  'Each translator (pl2wam, wam2ma, ma2asm, fd2c) either writes its whole output and reports success, or reports failure with a message, whatever reads and writes fail.',
  ['fault_sequences', 'configurations', 'inputs'],
  'every combination of source kinds, stop-after options and temporary-file options, and every stage failing at any point',
  'Tests only run successful compilations; failing stages, killed stages and full disks do not occur in them.',
  [T+'top_comp.c', E+'os_spawn.c', E+'machine.c', 'src/Pl2Wam/pl2wam.pl', 'src/Wam2Ma/wam2ma.c', 'src/Ma2Asm/ma2asm.c', 'src/Fd2C/fd2c.pl'],
  [('stage driver', T+'top_comp.c: Compile_Files, Compile_Cmd, Exec_One_Cmd'), ('temporary names', T+'top_comp.c: Create_Output_File_Name')],
  [], ['exit status, commands executed, files left'])

p('C19', 'consult loads all of a file or reports the failure and keeps the rest intact',
  'Consulting a file makes exactly the predicates defined by that file available with exactly its clauses in order, a re-consult replaces the predicates of the earlier load of that file and no others, and initialization goals run once, after the load. '
  'When the compiler child process cannot be started, dies, or its output is cut, delayed or cannot be read, consult reports it by failure, message or exception, does not hang or crash, and predicates of other files and the dynamic database are untouched.',
  ['fault_sequences', 'histories', 'schedules'],
  'every history of consults and re-consults, every cut or death of the child at any byte of its output',
  'Tests consult healthy files; the death or truncation of the child process at a chosen byte cannot be produced by a test.',
  [B+'consult.pl', B+'consult_c.c', B+'bc_supp.c', B+'pred_c.c'],
  [('child process and loader', B+'consult_c.c: Pl_Consult_2'), ('byte-code loader', B+'bc_supp.c: Pl_BC_*')],
  [], ['consult/1, load/1, current_predicate/1, clause/2'])

p('C20', 'Prolog called from C: nested queries restore exactly what they should',
  'Through the C interface, for any properly nested history of query begin, next solution, cut, keep for Prolog and end with recovery, each solution returned is the next one of that query, bindings are undone or kept exactly as the chosen operation documents, and an exception in a query is reported once as such with its ball. '
  'Queries left open by an exception or a longer jump do not disturb enclosing ones, and non-deterministic foreign predicates get back, on every retry, exactly the choice data they left.',
  ['histories', 'schedules'],
  'every properly nested interleaving of C-side query operations, Prolog backtracking, non-deterministic foreign predicates and exceptions',
  'The tests and examples make one query deep, in one order.',
  [B+'foreign_supp.c', B+'foreign.pl', E+'engine.c', B+'c_supp.c'],
  [('query stack', B+'foreign_supp.c: Pl_Query_Start, Pl_Query_Next_Solution, Pl_Query_End'), ('choice data', B+'foreign_supp.c: Pl_Foreign_Create_Choice')],
  [], ['Pl_Query_Begin, Pl_Query_Call, Pl_Query_Next_Solution, Pl_Query_End, Pl_Get_Choice_Buffer'])

p('C21', 'Random numbers: a set seed repeats the sequence, values stay in range',
  'After set_seed(S) the sequence of results of random/1, random/3 and the other random predicates is the same in every process and at every time, independent of clock, process id, earlier history and whatever runs in between; get_seed returns the seed last set, by set_seed or by randomize, and setting it again gives the same sequence. '
  'Every value lies in its documented range and has the documented type, and every integer of a range (of up to 2^31) is reachable; an empty range has no value; randomize gives different processes or instants different sequences.',
  ['histories', 'schedules'],
  'every seed, every clock value and process id, every interleaving of random predicates with other work',
  'Tests check one range once; independence from clock, pid and history needs those to be varied.',
  [B+'random_c.c', B+'random.pl', E+'machine.c'],
  [('generator', E+'machine.c: Pl_M_Randomize, Pl_M_Set_Seed, Pl_M_Random_Integer')],
  [], ['randomize/0, set_seed/1, get_seed/1, random/1,3'])

p('C22', 'Compiled, consulted and asserted programs behave the same in every history',
  'A program compiled to native code, the same program consulted (byte-code) and the same clauses added by assertz give, for every call and whatever is suspended, retried, cut, raised or loaded in between, the same solutions in the same order, the same bindings after backtracking, the same side effects and the same exceptions: those of the source text read as a Prolog program. '
  'Clause indexing, register allocation, inlined built-ins and environment trimming, last-call optimisation included, are never visible.',
  ['programs', 'histories', 'schedules'],
  'every program and every history of calls, backtracking, cuts, exceptions and loads over it',
  'The tests run a handful of programs to their first solution; a wrong code sequence needs a particular clause, register pressure and history to show.',
  ['src/Pl2Wam/', 'src/Wam2Ma/', 'src/Ma2Asm/', B+'bc_supp.c', B+'dynam_supp.c', E+'wam_inst.c'],
  [('compiler', 'src/Pl2Wam/pl2wam.pl: compile_file; code_gen.pl, reg_alloc.pl, indexing.pl, first_arg.pl'), ('byte-code', B+'bc_supp.c: BC_Emulate_Byte_Code, Pl_BC_Emulate_Pred')],
  [], ['gplc, consult/1, load/1, assertz/1'])

NA = [
 ('N01', 'Arithmetic evaluation is exact', 'is/2 and the comparison predicates compute the mathematically defined value of every evaluable expression within the integer range, and raise the documented evaluation or type error otherwise.', [B+'arith_inl_c.c']),
 ('N02', 'Reading back what was written gives the same term', 'A term written with quoting and operators in force, and read back under the same operator table and flags, is a variant of the original.', [B+'write_supp.c', B+'parser_supp.c', B+'lexer_supp.c']),
 ('N03', 'Unification, copying and comparison implement the standard', 'Unification computes the most general unifier, copy_term a variant, and compare/3, sort and keysort the standard total order.', [E+'wam_inst.c', B+'term_inl_c.c', B+'sort_c.c']),
 ('N05', 'Built-in predicates raise exactly the documented errors', 'Every built-in called with ill-typed or insufficiently instantiated arguments raises the error term the manual documents.', [B+'error_supp.c']),
 ('N06', 'Atom and text built-ins are exact', 'atom_concat, sub_atom, atom_length, number_codes and their relatives enumerate exactly the documented solutions.', [B+'atom_c.c', B+'atom.pl']),
 ('N07', 'Operator, flag and character-conversion tables follow the last change', 'op/3, set_prolog_flag/2 and char_conversion/2 affect exactly later reads and writes.', [E+'oper.c', B+'flag_c.c']),
 ('N08', 'Domain range operations are set operations', 'The finite-domain range library computes exact unions, intersections, complements and sums of integer sets in both representations.', [F+'fd_range.c']),
]
for i, t, s, f in NA:
    p(i, t, s, ['inputs', 'programs'], 'every input term or program', 'Tests sample a few inputs of an infinite space.', f, [('implementation', f[0])])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as fh:
    for r in P:
        fh.write(json.dumps(r) + '\n')
print(len(P))
