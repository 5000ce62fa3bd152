% The driver of C17: posts, labels, branches and backtracks as the plan says, logs each outcome and the domains after it.
:- foreign(sim_next(+term, +term, +term), [fct_name(sim_next)]).
:- foreign(sim_logt(+term), [fct_name(sim_logt)]).
:- initialization(main).

main :-
	functor(Env, env, 16),
	loop(Env, 0, _).

loop(Env, D, R) :-
	sim_next(Env, Op, Vs), !,
	step(Op, Vs, Env, D, R).
loop(_, _, _) :-
	sim_logt(end),
	halt.

step(Op, _, Env, 0, R) :-			% no choice point is open
	back(Op), !,
	out(noop, Env),
	loop(Env, 0, R).
step(retry, _, _, _, _) :- !,
	fail.
step(leave, _, _, _, _) :- !,
	throw('$leave').
step(commit, _, _, _, commit) :- !.
step(open(Id, G), Vs, Env, D, R) :- !,
	D1 is D + 1,
	(   catch(inner(Id, G, Vs, Env, D1, R1), '$leave', R1 = leave)
	->  true
	;   R1 = exhausted
	),
	out(r(R1, Id), Env),
	loop(Env, D, R).
step(G, Vs, Env, D, R) :-
	post(G, Vs, X),
	out(X, Env),
	loop(Env, D, R).

back(retry).
back(leave).
back(commit).

inner(Id, G, Vs, Env, D, R) :-
	goal(G, Ex),
	(   nonvar(Ex)
	->  out(r(ex(Ex), Id), Env),
	    fail
	;   true
	),
	out(r(sol(Vs), Id), Env),
	loop(Env, D, R).

goal(G, Ex) :-
	catch(G, Ex, true).

post(G, Vs, X) :-
	catch(G, Ex, true), !,
	(   nonvar(Ex)
	->  X = ex(Ex)
	;   X = ok(Vs)
	).
post(_, _, fail).

out(X, Env) :-
	Env =.. [_|L],
	doms(L, Ds),
	sim_logt(o(X, Ds)).

doms([], []).
doms([X|L], Ds) :-
	dom(X, D),
	Ds = [D|Ds1],
	doms(L, Ds1).

dom(X, D) :-
	generic_var(X),
	non_fd_var(X), !,
	D = n.
dom(X, d(L, S, A, Z)) :-
	fd_dom(X, L),
	fd_size(X, S),
	fd_min(X, A),
	fd_max(X, Z).
