% The driver: executes the operations of a plan, one after the other, and logs each outcome.
:- foreign(sim_next(+term, +term, +term), [fct_name(sim_next)]).
:- foreign(sim_logt(+term), [fct_name(sim_logt)]).
:- foreign(sim_int(+term), [fct_name(sim_int)]).
:- foreign(sim_adv(+integer, +integer, +integer, +integer), [fct_name(sim_adv)]).
:- foreign(sim_nowms(+term), [fct_name(sim_nowms)]).
:- foreign(sim_truth(+term), [fct_name(sim_truth)]).
:- foreign(sim_q(+term, +term), [fct_name(sim_q)]).
:- foreign(sim_nd(+term, +term, -integer), [fct_name(sim_nd), choice_size(3)]).
:- foreign(sim_io(?integer, +term, +integer, -integer, ?term, +float, -float, +term), [fct_name(sim_io)]).
:- dynamic(d1/1).
:- dynamic(d2/2).
:- dynamic(dg/2).

:- initialization(main).

main :-
	functor(Env, env, 200),
	run_seq(Env).

% -- straight-line driver: env(V1...) keeps values between operations
run_seq(Env) :-
	sim_next(Env, Op, Vs), !,
	do_op(Op, Vs, Env),
	run_seq(Env).
run_seq(_) :-
	sim_logt(end).

do_op(nd, _, Env) :- !,
	nd_top(Env).
do_op(G, Vs, Env) :-
	catch(do_call(G, Vs, Env), E, sim_logt(ex(E))).

do_call(G, Vs, Env) :-
	call(G), !,
	sim_logt(ok(Vs)).
do_call(_, _, _) :-
	sim_logt(fail).

% -- non-deterministic driver: the plan decides which choice point is resumed
nd_top(Env) :-
	catch(nd(Env), E, (sim_logt(top_ex(E)), fail)),
	sim_logt(left_bottom),
	fail.
nd_top(Env) :-
	sim_logt(bottom),
	nd_top(Env).

nd(Env) :-
	(   sim_next(Env, Op, Vs)
	->  true
	;   sim_logt(end),
	    halt
	),
	nd(Op, Vs, Env).

nd(do(G), Vs, Env) :- !,			% once, in its own catch
	catch(do_call(G, Vs, Env), E, sim_logt(ex(E))),
	nd(Env).
nd(raw(G), Vs, Env) :- !,			% once, without a catch
	(   call(G)
	->  sim_logt(ok(Vs))
	;   sim_logt(fail)
	),
	nd(Env).
nd(open(Id, G), Vs, Env) :- !,			% a choice point that the plan re-enters with retry
	(   call(G),
	    sim_logt(sol(Id, Vs)),
	    nd(Env)
	;   sim_logt(exhausted(Id)),
	    nd(Env)
	).
nd(retry, _, _) :- !,
	fail.
nd(leave, _, _) :- !.
nd(scope(Id, once), _, Env) :- !,
	(   once(nd(Env)),
	    sim_logt(left(Id)),
	    nd(Env)
	;   sim_logt(failed(Id)),
	    nd(Env)
	).
nd(scope(Id, call), _, Env) :- !,
	(   call(nd(Env)),
	    sim_logt(left(Id)),
	    nd(Env)
	;   sim_logt(failed(Id)),
	    nd(Env)
	).
nd(scope(Id, cut), _, Env) :- !,
	nd_cut(Id, Env),
	nd(Env).
nd(scope(Id, not), _, Env) :- !,
	(   \+ nd(Env)
	->  sim_logt(not_true(Id))
	;   sim_logt(not_false(Id))
	),
	nd(Env).
nd(scope(Id, ite), _, Env) :- !,
	(   nd(Env)
	->  sim_logt(then(Id))
	;   sim_logt(else(Id))
	),
	nd(Env).
nd(scope(Id, softite), _, Env) :- !,
	(   nd(Env)
	*-> sim_logt(then(Id))
	;   sim_logt(else(Id))
	),
	nd(Env).
nd(scope(Id, catch(C)), Vs, Env) :- !,
	(   catch(nd(Env), C, nd_caught(Id, Vs)),
	    sim_logt(left(Id)),
	    nd(Env)
	;   sim_logt(failed(Id)),
	    nd(Env)
	).
nd(scope(Id, findall(T, R)), _, Env) :- !,
	findall(T, nd(Env), R),
	sim_logt(all(Id, R)),
	nd(Env).
nd(scope(Id, findall(T, R, Tail)), _, Env) :- !,
	findall(T, nd(Env), R, Tail),
	sim_logt(all(Id, R)),
	nd(Env).
nd(scope(Id, bagof(T, R)), _, Env) :- !,
	(   bagof(T, Env^nd(Env), R),
	    sim_logt(all(Id, R)),
	    nd(Env)
	;   sim_logt(failed(Id)),
	    nd(Env)
	).
nd(scope(Id, setof(T, R)), _, Env) :- !,
	(   setof(T, Env^nd(Env), R),
	    sim_logt(all(Id, R)),
	    nd(Env)
	;   sim_logt(failed(Id)),
	    nd(Env)
	).
nd(scope(Id, forall(G)), _, Env) :- !,
	(   forall(nd(Env), nd_check(Id, G))
	->  sim_logt(forall_true(Id))
	;   sim_logt(forall_false(Id))
	),
	nd(Env).
nd(scope(Id, cwc), _, Env) :- !,		% call in a call: a call/N chain
	(   call(call, nd(Env)),
	    sim_logt(left(Id)),
	    nd(Env)
	;   sim_logt(failed(Id)),
	    nd(Env)
	).
nd(G, Vs, Env) :-
	nd(raw(G), Vs, Env).

nd_cut(Id, Env) :-
	nd(Env), !,
	sim_logt(left(Id)).
nd_cut(Id, _) :-
	sim_logt(failed(Id)).

nd_caught(Id, Vs) :-
	sim_logt(caught(Id, Vs)).

nd_check(Id, G) :-
	(   call(G)
	->  sim_logt(check(Id, true))
	;   sim_logt(check(Id, fail)),
	    fail
	).

% -- erases N clauses of another predicate, to make the system reclaim erased clauses
sim_gc(N, K) :-
	sim_gc_fill(N),
	sim_gc_drain(K).

sim_gc_fill(0) :- !.
sim_gc_fill(N) :-
	assertz(dg(N, x)),
	N1 is N - 1,
	sim_gc_fill(N1).

sim_gc_drain(fail) :-
	retract(dg(_, _)),
	fail.
sim_gc_drain(fail) :- !.
sim_gc_drain(all) :- !,
	retractall(dg(_, _)).
sim_gc_drain(some) :- !,
	retractall(dg(_, x)).
sim_gc_drain(abolish) :- !,
	abolish(dg / 2).
sim_gc_drain(one) :-
	retract(dg(_, _)), !,
	sim_gc_drain(one).
sim_gc_drain(one) :- !.
sim_gc_drain(skip) :-				% erased clauses between the first and the last: the next scan skips them
	asserta(dg(f, y)),
	assertz(dg(l, y)),
	retract(dg(_, x)),
	fail.
sim_gc_drain(skip) :-
	dg(_, _),
	fail.
sim_gc_drain(skip) :-
	retractall(dg(_, _)).

% -- many clauses in d2/2 with first arguments of one kind; erases those whose number is (not) a multiple of M
sim_fill(0, _) :- !.
sim_fill(N, K) :-
	sim_key(K, N, Key),
	assertz(d2(Key, N)),
	N1 is N - 1,
	sim_fill(N1, K).

sim_key(int, N, N).
sim_key(same, _, a).
sim_key(stc, N, f(N)).
sim_key(lst, N, [N]).
sim_key(var, _, _).
sim_key(mix, N, K) :-
	M is N mod 3,
	sim_key_mix(M, N, K).

sim_key_mix(0, N, N).
sim_key_mix(1, _, a).
sim_key_mix(2, _, _).

sim_thin(M) :-
	retract(d2(_, I)),
	integer(I),
	J is I mod M,
	J = 0,
	fail.
sim_thin(_).

sim_keep(M) :-
	clause(d2(_, I), true),
	integer(I),
	J is I mod M,
	J > 0,
	retract(d2(_, I)),
	fail.
sim_keep(_).

% -- compiled control constructs around a goal given at run time
x_cut(G) :-
	call(G), !.

x_ite(C, T, E) :-
	(   call(C)
	->  call(T)
	;   call(E)
	).

x_soft(C, T, E) :-
	(   call(C)
	*-> call(T)
	;   call(E)
	).

x_not(G) :-
	\+ call(G).

x_or(A, B) :-
	(   call(A)
	;   call(B)
	).

x_catch(G, C, R) :-
	catch(G, C, R).

x_two(G, H) :-
	call(G),
	x_keep(H, Y),
	sim_logt(two(H, Y)).
x_two(_, H) :-
	sim_logt(second(H)).

x_keep(H, Y) :-
	x_k(H, Y).
x_keep(_, none).

x_k(a, 1).
x_k(b, 2) :- !.
x_k(1, Y) :-
	x_k(a, Y).
x_k([], nil).
x_k([X|_], Y) :-
	x_k(X, Y), !.
x_k([_|L], Y) :-
	x_k(L, Y).
x_k(f(X), f(Y)) :-
	x_k(X, Y).
x_k(f(_), g).
x_k(1.5, float).
x_k(a, 3).

x_member(X, [X|_]).
x_member(X, [_|L]) :-
	x_member(X, L).

x_append([], L, L).
x_append([X|L1], L2, [X|L3]) :-
	x_append(L1, L2, L3).

x_deep(0, G, _) :- !,
	call(G).
x_deep(N, G, Y) :-
	N1 is N - 1,
	x_deep(N1, G, Z),
	x_same(Y, Z).

x_same(X, X).

x_choice(0, G) :- !,
	call(G).
x_choice(N, G) :-
	N1 is N - 1,
	x_choice(N1, G).
x_choice(N, _) :-
	N < 0.

x_catches(0, G) :- !,
	call(G).
x_catches(N, G) :-
	N1 is N - 1,
	catch(x_catches(N1, G), never(N), true).

x_softcut(G, H, T, E) :-		% a cut local to the test
	(   call(G),
	    (   call(H)
	    ;   !
	    )
	*-> call(T)
	;   call(E)
	).

x_itecut(G, H, T, E) :-
	(   call(G),
	    (   call(H)
	    ;   !,
	        fail
	    )
	->  call(T)
	;   call(E)
	).

x_conj(X, Y) :-			% variables of the local stack
	(   X = A,
	    x_same(A, B)
	;   B = other
	),
	x_same(B, Y).

x_all(T, G, L) :-			% collectors, compiled
	findall(T, G, L).

x_group(K, V, G, L) :-
	bagof(V, K ^ call(G), L).

x_nest(0, T, G, L) :- !,		% a collection in a collection in ...
	findall(T, G, L).
x_nest(N, T, G, L) :-
	N1 is N - 1,
	findall(L1, x_nest(N1, T, G, L1), L).

x_safe(G) :-
	catch(G, _, true).

x_open(F) :-
	open(F, read, S),
	close(S).

% -- reads up to N characters or bytes, one call each
sim_bulk(S, N, K, L) :-
	(   K = code
	->  sim_bulkc(N, S, L)
	;   sim_bulkb(N, S, L)
	).

sim_bulkc(0, _, L) :- !, L = [].
sim_bulkc(N, S, [C|L]) :-
	get_code(S, C),
	(   C = -1
	->  L = []
	;   N1 is N - 1,
	    sim_bulkc(N1, S, L)
	).

sim_bulkb(0, _, L) :- !, L = [].
sim_bulkb(N, S, [C|L]) :-
	get_byte(S, C),
	(   C = -1
	->  L = []
	;   N1 is N - 1,
	    sim_bulkb(N1, S, L)
	).

% global variables, compiled (C12)
x_gset(N, V, R) :- g_assign(N, V), g_read(N, R).
x_gtmp(N, V, G) :- ( g_assignb(N, V), call(G), fail ; true ).
x_glnk(N, V, G) :- g_link(N, V), call(G).
x_gcnt(N, G, C) :- g_assign(N, 0), ( call(G), g_inc(N), fail ; g_read(N, C) ).
x_gundo(N, V) :- \+ ( g_assignb(N, V), fail ), \+ \+ g_assignb(N, V).
x_gdump :- g_read(a, A), g_read(b, B), g_read(c, C), g_read(k, K), sim_logt(gv(A, B, C, K)).

sim_add([]).
sim_add([C|L]) :-
	assertz(C),
	sim_add(L).

sim_deep(X) :- sim_deep1(X), sim_true(X).	% choice points deep in environments that were left
sim_deep1(X) :- sim_deep2(X), sim_true(X).
sim_deep2(1).
sim_deep2(2).
sim_deep2(3).
sim_true(_).
