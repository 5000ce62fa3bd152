% The driver of C13: runs tasks whose results are known in closed form, logging each result.
:- foreign(sim_next(+term, +term, +term), [fct_name(sim_next)]).
:- foreign(sim_logt(+term), [fct_name(sim_logt)]).
:- initialization(main).

:- dynamic([f/1, g/2, h/3]).

main :-
	functor(Env, env, 16),
	repeat,
	(   sim_next(Env, Op, _)
	->  run(Op),
	    fail
	;   !,
	    sim_logt(end),
	    halt
	).

run(Op) :-
	Op =.. [P|As],
	append_([P|As], [R], L),
	G =.. L,
	catch(G, E, R = ex(E)), !,
	sim_logt(r(R)).
run(_) :-
	sim_logt(failed).

append_([], L, L).
append_([X|L1], L2, [X|L3]) :- append_(L1, L2, L3).

nl_(N, L) :- nl_(1, N, L).
nl_(I, N, L) :- I > N, !, L = [].
nl_(I, N, [I|L]) :- J is I + 1, nl_(J, N, L).

sum_([], 0).				% not tail recursive: local stack
sum_([X|L], S) :- sum_(L, S1), S is S1 + X.

tsum([], S, S).				% tail recursive
tsum([X|L], S0, S) :- S1 is S0 + X, tsum(L, S1, S).
tsum(L, S) :- tsum(L, 0, S).

list(N, S) :- nl_(N, L), tsum(L, S).

local(N, S) :- nl_(N, L), sum_(L, S).

cps(0).
cps(N) :- N > 0, M is N - 1, cps(M).
cps(_) :- fail.
choice(N, N) :- cps(N), !.

enum(N, S) :- g_assign(en, 0), ( en(N), g_inc(en), fail ; true ), g_read(en, S).
en(0).
en(N) :- N > 0, M is N - 1, en(M).
en(_).

trail(N, R) :-				% bindings made after a choice point are all undone
	length(L, N),
	(   bindall(L, 7), tsum(L, S), g_assign(tr, S), fail
	;   true
	),
	allvar(L), g_read(tr, S), term_variables(L, Vs), length(Vs, K),
	R = S-K.
bindall([], _).
bindall([X|L], X) :- bindall(L, X).
allvar([]).
allvar([X|L]) :- var(X), allvar(L).

trail2(N, R) :-				% attaching a mark below many choice points
	length(L, N),
	(   mark(L), fail
	;   true
	),
	allvar(L), length(L, R).
mark([]).
mark([a|L]) :- mark(L).
mark([b|_]) :- fail.

fall(N, S-K) :- findall(X-Y, (for(X, 1, N), Y is X * 2), L), length(L, K), pairs(L, 0, S).
pairs([], S, S).
pairs([X-Y|L], S0, S) :- S1 is S0 + Y - X, pairs(L, S1, S).

fa4(N, S) :- findall(X, for(X, 1, N), L, [0, 0]), tsum(L, S).

bag(N, L) :- findall(K-S, (bagof(X, m3(N, X, K), Xs), tsum(Xs, S)), L).
m3(N, X, K) :- for(X, 1, N), K is X mod 3.
set(N, S) :- setof(X-Y, I^(for(I, 1, N), X is N - I, m2(Y)), L), length(L, S).
m2(a). m2(b). m2(a).

copy(N, R) :-
	nl_(N, L), copy_term(f(L, X, Y, X, Y), T), T = f(L1, X1, Y1, X2, Y2),
	tsum(L1, S), ( X1 == X2, Y1 == Y2, X1 \== Y1 -> R = S ; R = wrong(S) ).
copyv(N, R) :-
	length(L, N), copy_term(L, L1), append_(L, L1, L2), term_variables(L2, Vs), length(Vs, R).

atomlen(N, R) :- length(L, N), bindall(L, 0'x), atom_codes(A, L), atom_length(A, K), atom_codes(A, L2), ( L == L2 -> R = K ; R = wrong ).
atomcat(N, R) :- atomcat(N, '', A), atom_length(A, R).
atomcat(0, A, A) :- !.
atomcat(N, A, B) :- M is N - 1, atom_concat(A, x, C), atomcat(M, C, B).
subs(N, R) :- length(L, N), bindall(L, a), atom_chars(A, L), findall(B, sub_atom(A, B, _, 0, _), Bs), length(Bs, R).
atoms(N, R) :- atoms(N, zq, L), sort(L, L1), length(L1, R).
atoms(0, _, []) :- !.
atoms(N, P, [A|L]) :- number_atom(K, '0'), K = 0, number_codes(N, C), atom_codes(X, C), atom_concat(P, X, A), M is N - 1, atoms(M, P, L).
newatoms(N, R) :- newatoms_(N), R = N.
newatoms_(0) :- !.
newatoms_(N) :- new_atom(A), atom(A), M is N - 1, newatoms_(M).

asrt(N, S-K) :-
	retractall(f(_)), asserts(1, N), findall(X, f(X), L), tsum(L, S), retractall(f(_)),
	findall(X, f(X), L2), length(L2, K).
asserts(I, N) :- I > N, !.
asserts(I, N) :- assertz(f(I)), J is I + 1, asserts(J, N).
assertb(N, R) :-			% one big clause
	nl_(N, L), retractall(g(_, _)), assertz((g(a, L) :- L = [_|T], T \== [])), assertz(g(b, L)),
	g(b, L1), tsum(L1, S), clause(g(a, L2), B), tsum(L2, S2), ( B = (L2 = [_|_], _) -> R = S-S2 ; R = wrong ),
	retractall(g(_, _)).
asserti(N, R) :-			% found by index
	retractall(h(_, _, _)), asserth(1, N), look(1, N, 0, R), retractall(h(_, _, _)).
asserth(I, N) :- I > N, !.
asserth(I, N) :- number_codes(I, C), atom_codes(A, [0'k|C]), assertz(h(A, I, f(I))), J is I + 1, asserth(J, N).
look(I, N, S, S) :- I > N, !.
look(I, N, S0, S) :- number_codes(I, C), atom_codes(A, [0'k|C]), h(A, X, f(X)), !, S1 is S0 + X, J is I + 1, look(J, N, S1, S).
retr(N, R) :- retractall(f(_)), asserts(1, N), retr_(0, R).
retr_(S0, S) :- retract(f(X)), !, S1 is S0 + X, retr_(S1, S).
retr_(S, S).

srt(N, R) :-
	scr(N, L), sort(L, L1), length(L1, K), msort(L, L2), length(L2, K2), ord(L1), ord2(L2), keyed(L, P), keysort(P, P1), length(P1, K3), ordk(P1),
	R = s(K, K2, K3).
scr(0, []) :- !.
scr(N, [X|L]) :- X is N * 7919 mod 97, M is N - 1, scr(M, L).
keyed([], []).
keyed([X|L], [X-1|M]) :- keyed(L, M).
ord([_]) :- !.
ord([X, Y|L]) :- X < Y, ord([Y|L]).
ord2([_]) :- !.
ord2([X, Y|L]) :- X =< Y, ord2([Y|L]).
ordk([_]) :- !.
ordk([X-_, Y-A|L]) :- X =< Y, ordk([Y-A|L]).

text(N, R) :-				% written to codes and read again
	nl_(N, L), write_to_codes(C, L), length(C, K), append_(C, " .", C1), read_from_codes(C1, L1), tsum(L1, S), R = K-S.
textt(N, R) :- tree(N, T), write_to_codes(C, T), length(C, K), append_(C, " .", C1), read_from_codes(C1, T1), ( T == T1 -> R = K ; R = wrong ).
texta(N, R) :- nl_(N, L), write_to_atom(A, L), atom_length(A, K), R = K.
fmt(N, R) :- nl_(N, L), format_to_codes(C, "~w ~a~n", [L, abc]), length(C, R).
istream(N, R) :-
	length(L, N), bindall(L, 0'y), open_input_codes_stream(L, S), eat(S, 0, R), close_input_codes_stream(S).
eat(S, N, R) :- get_code(S, C), ( C = -1 -> R = N ; M is N + 1, eat(S, M, R) ).
ostream(N, R) :- open_output_codes_stream(S), puts(N, S), close_output_codes_stream(S, L), length(L, R).
puts(0, _) :- !.
puts(N, S) :- put_char(S, z), M is N - 1, puts(M, S).
fileio(N, R) :- open('/d/out', write, S), puts(N, S), close(S), open('/d/out', read, S2), eat(S2, 0, R), close(S2).
streams(N, R) :- opens(N, L), length(L, R), closes(L).
opens(0, []) :- !.
opens(N, [S|L]) :- open_input_codes_stream("abc", S), M is N - 1, opens(M, L).
closes([]).
closes([S|L]) :- get_char(S, a), close_input_codes_stream(S), closes(L).

tree(0, leaf) :- !.
tree(D, t(A, D, B)) :- E is D - 1, tree(E, A), tree(E, B).
trees(D, R) :-
	tree(D, A), tree(D, B), A = B, A == B, compare(O, A, B), ground(A), copy_term(A, C), C = B,
	count(A, K), R = O-K.
count(leaf, 1).
count(t(A, _, B), N) :- count(A, X), count(B, Y), N is X + Y.
vtree(D, R) :- vt(D, A), vt(D, B), A = B, term_variables(f(A, B), V), length(V, R).
vt(0, _) :- !.
vt(D, t(A, B)) :- E is D - 1, vt(E, A), vt(E, B).

univ(N, R) :- functor(T, f, N), T =.. [_|L], bindall(L, 3), tsum(L, S), functor(T, F, M), R = r(F, M, S).

gv(N, R) :- nl_(N, L), g_assign(gv, L), g_read(gv, L1), tsum(L1, S), g_assign(gv, 0), R = S.
ga(N, R) :- nl_(N, L), g_assign(gt, g_array(N, 5)), g_assign(gt(0), L), g_read(gt(0), L1), tsum(L1, S), M is N - 1, g_read(gt(M), X), g_assign(gt, 0), R = S-X.

ball(N, R) :- catch((nl_(N, L), throw(b(L))), b(L1), tsum(L1, R)).

app2(N, R) :- nl_(N, L), append(L, [x], L1), reverse(L1, [_|L2]), last(L2, X), length(L2, K), nth(1, L2, Y), R = r(X, K, Y).
memb(N, R) :- nl_(N, L), findall(X, (member(X, L), X mod 2 =:= 0), Xs), length(Xs, R).
suml(N, R) :- nl_(N, L), sum_list(L, S), max_list(L, M), R = S-M.

fdchain(N, R) :- length(L, N), M is N * 2, fd_domain(L, 1, M), chain(L), L = [X|_], fd_min(X, A), fd_max(X, B), R = A-B.
chain([_]) :- !.
chain([X, Y|L]) :- X #< Y, chain([Y|L]).
fdlab(N, R) :- length(L, N), fd_domain(L, 0, 1), fd_exactly(2, L, 1), findall(x, fd_labeling(L), S), length(S, R).
fdsum(N, R) :- length(L, N), fd_domain(L, 0, 3), fdsum_(L, E), E #= M, M #>= 3 * N, L = [X|_], fd_min(X, R).
fdsum_([X], X) :- !.
fdsum_([X|L], X + E) :- fdsum_(L, E).
fdvec(N, R) :- fd_set_vector_max(N), fd_domain(X, [0, N]), Y #\= N, X #= Y, fd_dom(X, R).
