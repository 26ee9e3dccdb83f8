"""C15: iteration takes constant space, and the length of data is limited by storage only."""
from ..common import *
from ..harness import Boot, Property, Violation, crash_check

MARKS = 5

# What an iteration does and has finished before the next one: {i} is the count.
WORK = {
    "nothing": "0",
    "escape": "(call/cc (lambda (k) (+ 1 (k i))))",
    "escape-out": "(call/cc (lambda (k) (dynamic-wind (lambda () 0) (lambda () (k 0)) (lambda () 0))))",
    "escape-in": "(let ((c #f) (again #t)) (dynamic-wind (lambda () 0) (lambda () (call/cc (lambda (k) (set! c k)))) (lambda () 0)) (if again (begin (set! again #f) (c 0)) 0))",
    "wind": "(dynamic-wind (lambda () 0) (lambda () 0) (lambda () 0))",
    "parameterize": "(parameterize ((parameter i)) (parameter))",
    "parameterize-escape": "(call/cc (lambda (k) (parameterize ((parameter i)) (k (parameter)))))",
    "convert": "(parameterize ((converted i)) (converted))",
    "raise": "(guard (e (#t e)) (raise i))",
    "raise-symbol": "(guard (e ((symbol? e) e) (else 0)) (raise 'a))",
    "error": "(guard (e ((error-object? e) 0)) (error \"message\" i))",
    "kernel-error": "(guard (e (#t 0)) (quotient i 0))",
    "kernel-error-escape": "(call/cc (lambda (k) (with-exception-handler (lambda (e) (k 0)) (lambda () (quotient i 0)))))",
    "kernel-error-wind": "(guard (e (#t 0)) (dynamic-wind (lambda () 0) (lambda () (vector-ref-error)) (lambda () 0)))",
    "read-error": "(guard (e ((read-error? e) 0)) (read (open-input-string \")\")))",
    "file-error": "(guard (e ((file-error? e) 0)) (open-input-file \"none\"))",
    "reraise": "(guard (e (#t 0)) (guard (e (#f 0)) (raise i)))",
    "reraise-kernel": "(guard (e (#t 0)) (guard (e (#f 0)) (quotient i 0)))",
    "secondary": "(guard (e (#t 0)) (with-exception-handler (lambda (e) (raise 'second)) (lambda () (raise 'first))))",
    "secondary-kernel": "(guard (e (#t 0)) (with-exception-handler (lambda (e) (quotient 1 0)) (lambda () (quotient 2 0))))",
    "returned": "(guard (e (#t 0)) (with-exception-handler (lambda (e) 0) (lambda () (raise 'first))))",
    "continuable": "(with-exception-handler (lambda (e) (+ e 1)) (lambda () (raise-continuable i)))",
    "wind-raise": "(guard (e (#t 0)) (dynamic-wind (lambda () 0) (lambda () (raise i)) (lambda () 0)))",
    "after-raise": "(guard (e (#t 0)) (dynamic-wind (lambda () 0) (lambda () 0) (lambda () (raise i))))",
    "after-raise-raise": "(guard (e (#t 0)) (dynamic-wind (lambda () 0) (lambda () (raise i)) (lambda () (raise 'after))))",
    "force": "(force (delay i))",
    "force-raise": "(let ((p (delay (raise i)))) (guard (e (#t 0)) (force p)) (guard (e (#t 0)) (force p)))",
    "force-chain": "(force (delay-force (delay-force (delay i))))",
    "map": "(map (lambda (x) (+ x i)) '(1 2 3))",
    "for-each": "(for-each (lambda (x) x) '(1 2 3))",
    "vector-map": "(vector-map (lambda (x) x) #(1 2 3))",
    "sort": "(vector-for-each (lambda (x y) x) #(1 2) #(3 4))",
    "apply": "(apply + i '(1 2 3))",
    "values": "(call-with-values (lambda () (values i 1)) +)",
    "let-values": "(let-values (((a b) (values i 1)) ((c) (values 2))) (+ a b c))",
    "define-values": "(let () (define-values (a b) (values i 1)) (+ a b))",
    "record": "(person-age (make-person i))",
    "string-port": "(let ((p (open-output-string))) (write (list i \"text\") p) (string-length (get-output-string p)))",
    "read": "(read (open-input-string \"(1 #(2 \\\"3\\\") #\\\\a . 4.5)\"))",
    "read-labels": "(read (open-input-string \"#0=(1 . #0#)\"))",
    "ring": "(let ((c (list 1 2 3))) (set-cdr! (cddr c) c) 0)",
    "closure-ring": "(letrec ((f (lambda () g)) (g (lambda () f))) (f) 0)",
    "big": "(* 123456789012345678901234567890 (+ i 1))",
    "ratio": "(/ (+ i 1) 7)",
    "string": "(string-append \"a\" (number->string i))",
    "symbol": "(string->symbol \"a-symbol\")",
    "bytes": "(bytevector-append (bytevector 1 2) (make-bytevector 3 4))",
    "eval": "(eval '(let ((x 1)) (+ x 2)) (interaction-environment))",
    "eval-lambda": "((eval '(lambda (x) (let ((y x)) y)) (interaction-environment)) i)",
    "eval-define": "(eval '(define defined 2) (interaction-environment))",
    "eval-macro": "(eval '(let-syntax ((m (syntax-rules () ((_ a) (let ((t a)) t))))) (m 1)) (interaction-environment))",
    "eval-syntax": "(eval '(define-syntax defined-syntax (syntax-rules () ((_ a) (if a 1 2)))) (interaction-environment))",
    "file": "(begin (call-with-output-file \"home/f\" (lambda (p) (write i p))) (call-with-input-file \"home/f\" read))",
    "file-unclosed": "(begin (set! openings (+ openings 1)) (if (= 0 (modulo openings 50)) (sim-collect)) (let ((p (open-input-file \"home/in\"))) (read-char p)))",
    "file-with": "(with-output-to-file \"home/f\" (lambda () (write i)))",
    "file-escape": "(begin (set! openings (+ openings 1)) (if (= 0 (modulo openings 50)) (sim-collect)) (call/cc (lambda (k) (call-with-input-file \"home/in\" (lambda (p) (k (read-line p)))))))",
    "file-raise": "(begin (set! openings (+ openings 1)) (if (= 0 (modulo openings 50)) (sim-collect)) (guard (e (#t 0)) (with-input-from-file \"home/in\" (lambda () (raise 'gone)))))",
    "load": "(load \"home/l.ss\")",
    "load-error": "(guard (e (#t 0)) (load \"home/none.ss\"))",
    "coroutine": "(let ((back #f) (other #f)) (define (switch) (call/cc (lambda (k) (let ((o other)) (set! other k) (o 0)))))"
                 " (call/cc (lambda (done) (set! other (lambda (x) (switch) (switch) (done 0))) (switch) (switch) (switch) 0)))",
    "generator": "(let ((return #f) (resume #f)) (define (next) (call/cc (lambda (r) (set! return r) (if resume (resume 0) (begin (for-each (lambda (x) (call/cc (lambda (k) (set! resume k) (return x)))) '(1 2 3)) (return 'end)))))) (next) (next) 0)",
    "mutate": "(begin (vector-set! state 0 (list i)) (set! global (cons i '())))",
    "table": "(begin (set! global (cons (lambda () i) '())) 0)",
    "inner-loop": "(do ((j 0 (+ j 1)) (x '() (cons j x))) ((= j 5) (length x)))",
}

# How the next iteration is called last: {call} is the call of it.
ROUTES = {
    "if": "(if #t {call} 0)",
    "else": "(if #f 0 {call})",
    "cond": "(cond (#f 0) ({test} {call}) (else 0))",
    "cond-else": "(cond (#f 0) (else 1 {call}))",
    "cond-arrow": "(cond (#f 0) ({next} => {self1}))",
    "case": "(case 1 ((0) 0) ((1 2) {call}) (else 0))",
    "case-else": "(case 3 ((1 2) 0) (else {call}))",
    "case-arrow": "(case {next} ((-1) 0) (else => {self1}))",
    "and": "(and #t 1 {call})",
    "or": "(or #f {call})",
    "when": "(when #t 0 {call})",
    "unless": "(unless #f 0 {call})",
    "begin": "(begin 0 {call})",
    "let": "(let ((x 1) (y (list i))) {call})",
    "let*": "(let* ((x 1) (y x)) {call})",
    "letrec": "(letrec ((x (lambda () y)) (y 1)) {call})",
    "letrec*": "(letrec* ((x 1) (y x)) {call})",
    "let-values": "(let-values (((x y) (values 1 2))) {call})",
    "let*-values": "(let*-values (((x y) (values 1 2)) ((z) (values x))) {call})",
    "body": "(let () (define x 1) (define (f) x) {call})",
    "let-syntax": "(let-syntax ((m (syntax-rules () ((_ e) e)))) (m {call}))",
    "letrec-syntax": "(letrec-syntax ((m (syntax-rules () ((_ e) (if #t e 0))))) (m {call}))",
    "do": "(do ((j 0 (+ j 1))) ((= j 2) {call}) j)",
    "lambda": "((lambda (x . y) {call}) 1 2 3)",
    "named-let": "(let go ((j 0)) (if (< j 2) (go (+ j 1)) {call}))",
    "case-lambda": "((case-lambda (() 0) ((x) {call}) (x 1)) 1)",
    "apply": "(apply {self} (list {next} 'a))",
    "apply-more": "(apply {self} {next} '(a))",
    "call/cc": "(call/cc (lambda (k) {call}))",
    "values": "(call-with-values (lambda () (values {next} 'a)) {self})",
    "escape": "((call/cc (lambda (k) (dynamic-wind (lambda () 0) (lambda () (k (lambda () {call}))) (lambda () 0)))))",
    "thunk": "((parameterize ((parameter i)) (lambda () {call})))",
    "wind-thunk": "((dynamic-wind (lambda () 0) (lambda () (lambda () {call})) (lambda () 0)))",
    "guard-clause": "(guard (e ((number? e) {call})) (raise i))",
    "guard-else": "(guard (e (#f 0) (else {call})) (quotient 1 0))",
    "handler-thunk": "((call/cc (lambda (k) (with-exception-handler (lambda (e) (k (lambda () {call}))) (lambda () (error \"message\"))))))",
    "promise-thunk": "((force (delay (lambda () {call}))))",
    "set-then": "(begin (set! global i) {call})",
    "rest": "(let ((f (lambda args (apply {self} args)))) (f {next} 'a))",
}

# Routes in which other expressions may come before the call, and those where definitions may.
SEQUENCES = {"cond", "cond-else", "case", "case-else", "when", "unless", "begin", "do", "guard-clause", "guard-else", "let", "let*", "letrec", "letrec*", "let-values", "let*-values", "body", "lambda", "case-lambda", "call/cc", "thunk", "wind-thunk", "promise-thunk", "escape", "handler-thunk"}
BODIES = {"let", "let*", "letrec", "letrec*", "let-values", "let*-values", "lambda", "case-lambda", "call/cc", "thunk", "promise-thunk"}
BEFORE = ["(set! global i)", "(if (< i 0) 0)", "(list i)", "(begin (set! global (list i)) i)", "(call/cc (lambda (k) (k i)))", "(let ((x i)) (lambda () x))"]
DEFINED = ["(define z i)", "(define (z) i)", "(define z (call/cc (lambda (k) i)))", "(define-values (z w) (values i i))", "(begin (define z i))"]


def route_of(rng):
    """One to three routes within each other, and what comes before the call in each of them."""
    names = [n for n in sorted(ROUTES) if "{call}" in ROUTES[n]]
    out = []
    for _ in range(rng.choice([0, 0, 0, 0, 1, 1, 2])):
        out.append(rng.choice(names))
    out.append(rng.choice(sorted(ROUTES)))
    for k, n in enumerate(out):
        if n in SEQUENCES and rng.random() < 0.4:
            before = [rng.choice(BEFORE) for _ in range(rng.choice([0, 1, 1, 2]))]
            if n in BODIES and rng.random() < 0.5: before.insert(0, rng.choice(DEFINED))
            if before: out[k] = [n, " ".join(before)]
    return out


def routed(route, **parts):
    call = parts.pop("call")
    if isinstance(route, str): route = [route]
    for n in reversed(route):
        n, before = n if isinstance(n, list) else (n, "")
        call = ROUTES[n].format(call=(before + " " + call).strip(), **parts)
    return call


# Surroundings of the whole iteration.
AROUND = {
    "plain": "{x}",
    "guard": "(guard (e (#f 0)) {x})",
    "handler": "(with-exception-handler (lambda (e) 0) (lambda () {x}))",
    "wind": "(dynamic-wind (lambda () 0) (lambda () {x}) (lambda () 0))",
    "parameterize": "(parameterize ((parameter 'outside)) {x})",
    "call/cc": "(call/cc (lambda (k) {x}))",
    "promise": "(force (delay {x}))",
    "output": "(call-with-port (open-output-string) (lambda (p) (parameterize ((current-output-port p)) {x})))",
    "map": "(car (map (lambda (y) {x}) '(1)))",
    "operand": "(car (list {x}))",
}

# Whole iterations in other shapes: they call (tick i) n times.
SHAPES = {
    "re-enter": "(let ((k #f) (i 0)) (call/cc (lambda (c) (set! k c))) (tick i) {work} (set! i (+ i 1)) (if (< i n) (k #f) 'end))",
    "re-enter-wind": "(let ((k #f) (i 0)) (dynamic-wind (lambda () 0) (lambda () (call/cc (lambda (c) (set! k c)))) (lambda () 0)) (tick i) {work} (set! i (+ i 1)) (if (< i n) (k #f) 'end))",
    "delay-force": "(let () (define (loop i) (delay-force (begin (tick i) {work} (if (< i n) (loop (+ i 1)) (delay 'end))))) (force (loop 0)))",
    "stream": "(let () (define (integers i) (delay (cons i (integers (+ i 1))))) (let loop ((s (integers 0))) (let* ((x (force s)) (i (car x))) (tick i) {work} (if (< i n) (loop (cdr x)) 'end))))",
    "stream-filter": "(let () (define (integers i) (delay (cons i (integers (+ i 1))))) (define (seek s) (delay-force (let* ((x (force s)) (i (car x))) (tick i) {work} (if (= i n) (delay x) (seek (cdr x)))))) (car (force (seek (integers 0)))) 'end)",
    "do": "(do ((i 0 (+ i 1))) ((= i n) 'end) (tick i) {work})",
    "threads": "(let ((a #f) (b #f)) (define (to-b) (call/cc (lambda (k) (set! a k) (b 0)))) (define (to-a) (call/cc (lambda (k) (set! b k) (a 0))))"
               " (call/cc (lambda (done) (set! b (lambda (x) (let loop () (to-a) (loop)))) (let loop ((i 0)) (tick i) {work} (to-b) (if (< i n) (loop (+ i 1)) (done 'end))))))",
    "generator": "(let ((return #f) (resume #f) (i 0)) (define (next) (call/cc (lambda (r) (set! return r) (if resume (resume 0) (let loop ((j 0)) (call/cc (lambda (k) (set! resume k) (return j))) (loop (+ j 1)))))))"
                 " (let loop () (set! i (next)) (tick i) {work} (if (< i n) (loop) 'end)))",
    "handlers": "(with-exception-handler (lambda (i) (tick i) {work} (+ i 1)) (lambda () (let loop ((i 0)) (if (< i n) (loop (raise-continuable i)) 'end))))",
    "string": "(let ((i 0)) (string-for-each (lambda (c) (tick i) {work} (set! i (+ i 1))) (make-string n #\\a)) 'end)",
    "list": "(let ((xs (let loop ((i 0) (x '())) (if (< i n) (loop (+ i 1) (cons (- n i 1) x)) x)))) (for-each (lambda (i) (tick i) {work}) xs) (set! global xs) 'end)",
    "vector": "(let ((i 0)) (vector-for-each (lambda (c) (tick i) {work} (set! i (+ i 1))) (make-vector n 0)) 'end)",
    "lines": "(let ((p (open-input-string (make-string n #\\newline)))) (let loop ((i 0)) (if (eof-object? (read-line p)) 'end (begin (tick i) {work} (loop (+ i 1))))))",
    "output": "(let ((p (open-output-file \"home/log\"))) (let loop ((i 0)) (tick i) {work} (write-char #\\a p) (if (< i n) (loop (+ i 1)) (begin (close-port p) 'end))))",
}

LONG = [ # what is computed from something of length n, and what comes out
    ("(length (mk n))", "n"), ("(length (append (mk n) (mk n)))", "2n"), ("(length (append (mk n) '(1 2) (mk n)))", "2n2"), ("(length (reverse (mk n)))", "n"), ("(length (list-copy (mk n)))", "n"),
    ("(equal? (mk n) (mk n))", "#t"), ("(equal? (mk n) (cons 1 (cdr (mk n))))", "#f"), ("(length (map (lambda (x) x) (mk n)))", "n"), ("(length (map + (mk n) (mk n)))", "n"), ("(let ((c 0)) (for-each (lambda (x) (set! c (+ c 1))) (mk n)) c)", "n"),
    ("(vector-length (list->vector (mk n)))", "n"), ("(length (vector->list (make-vector n 0)))", "n"), ("(vector-length (vector-map (lambda (x) x) (make-vector n 0)))", "n"),
    ("(string-length (list->string (map (lambda (x) #\\a) (mk n))))", "n"), ("(length (string->list (make-string n #\\a)))", "n"), ("(string-length (string-map char-upcase (make-string n #\\a)))", "n"),
    ("(length (apply list (mk n)))", "n"), ("(vector-length (apply vector (mk n)))", "n"), ("(apply (lambda x (length x)) (mk n))", "n"), ("(apply + (mk n))", "sum"), ("(apply max (mk n))", "last"),
    ("(member 'x (mk n))", "#f"), ("(memv 'x (mk n))", "#f"), ("(assoc 'x (map list (mk n)))", "#f"), ("(assq 'x (map list (mk n)))", "#f"), ("(length (list-tail (mk n) 10))", "n-10"), ("(list-ref (mk n) (- n 1))", "0"),
    ("(let ((p (open-output-string))) (write (mk n) p) (length (read (open-input-string (get-output-string p)))))", "n"), ("(let ((p (open-output-string))) (display (list->vector (mk n)) p) (vector-length (read (open-input-string (get-output-string p)))))", "n"),
    ("(let ((p (open-output-string))) (write-simple (mk n) p) (length (read (open-input-string (get-output-string p)))))", "n"), ("(let ((p (open-output-string))) (write (make-string n #\\a) p) (string-length (read (open-input-string (get-output-string p)))))", "n"),
    ("(string-length (symbol->string (read (open-input-string (make-string n #\\a)))))", "n"), ("(string-length (read-line (open-input-string (make-string n #\\a))))", "n"), ("(string-length (read-string n (open-input-string (make-string n #\\a))))", "n"),
    ("(string-length (apply string-append (map (lambda (x) \"a\") (mk n))))", "n"), ("(bytevector-length (apply bytevector (map (lambda (x) 1) (mk n))))", "n"), ("(list? (mk n))", "#t"), ("(vector-length (string->vector (make-string n #\\a)))", "n"),
    ("(string-length (utf8->string (make-bytevector n 65)))", "n"), ("(equal? (make-vector n 0) (make-vector n 0))", "#t"),
    ("(let loop ((i 0)) (if (< i n) (+ 1 (loop (+ i 1))) 0))", "n"), ("(let loop ((i 0)) (cond ((< i n) => (lambda (x) (+ 1 (loop (+ i 1))))) (else 0)))", "n"), ("(length (let loop ((i 0)) (if (< i n) (cons i (call/cc (lambda (k) (loop (+ i 1))))) '())))", "n"),
    ("(length (let loop ((i 0)) (if (< i n) (cons i (apply loop (list (+ i 1)))) '())))", "n"), ("(length (let loop ((i 0)) (if (< i (quotient n 10)) (cons i (dynamic-wind (lambda () 0) (lambda () (loop (+ i 1))) (lambda () 0))) '())))", "n/10"),
    ("(length (let loop ((i 0)) (if (< i (quotient n 10)) (cons i (parameterize ((parameter i)) (loop (+ i 1)))) '())))", "n/10"), ("(length (let loop ((i 0)) (if (< i (quotient n 10)) (cons i (with-exception-handler (lambda (e) 0) (lambda () (loop (+ i 1))))) '())))", "n/10"),
    ("(length (let loop ((i 0)) (if (< i (quotient n 10)) (cons i (guard (e (#f 0)) (loop (+ i 1)))) '())))", "n/10"), ("(guard (e (#t e)) (let loop ((i 0)) (if (< i (quotient n 10)) (+ 1 (loop (+ i 1))) (raise i))))", "n/10"),
    ("(guard (e (#t 'caught)) (let loop ((i 0)) (if (< i (quotient n 10)) (dynamic-wind (lambda () 0) (lambda () (loop (+ i 1))) (lambda () 0)) (quotient 1 0))))", "caught"),
    ("(call/cc (lambda (k) (let loop ((i 0)) (if (< i n) (+ 1 (loop (+ i 1))) (k i)))))", "n"), ("(length (eval (list 'quote (mk n)) (interaction-environment)))", "n"), ("(read (open-input-string (string-append (repeat \"#;a \" n) \"0\")))", "0"), ("(read (open-input-string (string-append (repeat \"#||# \" n) \"0\")))", "0"),
    ("(read (open-input-string (string-append (repeat \"#|\" n) (repeat \"|#\" n) \"0\")))", "0"), ("(read (open-input-string (string-append (repeat \";\\n\" n) \"0\")))", "0"), ("(read (open-input-string (string-append (repeat \"#!fold-case \" n) \"0\")))", "0"), ("(read (open-input-string (string-append (repeat \" \" n) \"0\")))", "0"),
    ("(begin (set! global (let loop ((i 0) (x '())) (if (< i n) (loop (+ i 1) (list x)) x))) (sim-collect) (sim-collect) (set! global 0) 0)", "0"),
    ("(begin (set! global (let loop ((i 0) (x '())) (if (< i n) (loop (+ i 1) (vector x)) x))) (sim-collect) (sim-collect) (set! global 0) 0)", "0"),
    ("(begin (set! global (let loop ((i 0) (x '())) (if (< i n) (loop (+ i 1) (lambda () x)) x))) (sim-collect) (sim-collect) (set! global 0) 0)", "0"),
    ("(begin (set! global (let loop ((i 0) (x '())) (if (< i n) (loop (+ i 1) (delay x)) x))) (sim-collect) (sim-collect) (set! global 0) 0)", "0"),
    ("(begin (let loop ((i 0)) (if (< i n) (+ 1 (loop (+ i 1))) (begin (sim-collect) 0))) (sim-collect) 0)", "0"),
    ("(let ((d (delay 0))) (let loop ((i 0) (p d)) (if (< i n) (loop (+ i 1) (let ((q p)) (delay-force q))) (force p))))", "0"),
    ("(vector-length (let ((v (make-vector n 0))) (vector-fill! v 1) (vector-append v (vector 1))))", "n+1"), ("(let ((p (open-input-string (let ((o (open-output-string))) (for-each (lambda (x) (write x o) (newline o)) (mk n)) (get-output-string o))))) (let loop ((c 0)) (if (eof-object? (read p)) c (loop (+ c 1)))))", "n"),
    ("(let ((x (mk n))) (set-cdr! (list-tail x (- n 1)) x) (list? x))", "#f"), ("(length (list-copy (vector->list (list->vector (mk n)))))", "n"), ("(string-length (string-copy (string-append (make-string n #\\a) \"b\")))", "n+1"),
    ("(begin (call-with-output-file \"home/long\" (lambda (p) (write (mk n) p))) (length (call-with-input-file \"home/long\" read)))", "n"),
    ("(begin (call-with-output-file \"home/long\" (lambda (p) (for-each (lambda (x) (write-string \"(set! global 1)\" p)) (mk (quotient n 10))))) (load \"home/long\") global)", "1"),
]


class C15(Property):
    id = "C15"
    shrink = ("chain", "around", "long")
    runs = {"quick": 1000, "thorough": 60000}
    wall = {"quick": 45, "thorough": 900}
    rule = ("A case is an iteration put together from seeded parts: up to five procedures that call each other last along seeded routes (every position that R7RS calls a tail position, and thunks brought out of extents, handlers and promises), or another shape (re-entered continuations, threads, streams, generators), each step of which does seeded work (errors of every kind, escapes, extents, parameters, promises, ports, eval, load) in seeded surroundings; "
            "or one operation on data of seeded length. The stack of the process may grow by 256 KiB only; collections happen at seeded requests. While it iterates, the reachable objects, the stack and the descriptors in use are measured at five seeded counts: they must not grow from the second on. Non-trivial: all measurements were taken, or the operation gave its result.")
    assumptions = ["the first iterations may fill caches and tables"]

    def scenario(self, rng, tier):
        s = {"gc": random_gc(rng, 60000, heavy=0.5, cost=12), "place": random_place(rng)}
        if rng.random() < 0.3:
            return {**s, "long": [rng.randrange(len(LONG)) for _ in range(4)], "n": rng.choice([9000, 12345] if rng.random() < 0.9 else [20000, 40000]), "chain": [], "around": []}
        work = lambda: [rng.choice(sorted(WORK)) for _ in range(rng.choice([0, 1, 1, 2, 3]))]
        if rng.random() < 0.3:
            chain, shape = [[work() or ["nothing"], "-"]], rng.choice(sorted(SHAPES))
        else:
            chain, shape = [[work(), route_of(rng)] for _ in range(rng.choice([1, 1, 2, 3, 5]))], None
        n = rng.choice([200, 300, 500])
        first = rng.randrange(n // 10, n // 4)
        return {**s, "chain": chain, "shape": shape, "around": [rng.choice(sorted(AROUND)) for _ in range(rng.choice([0, 0, 1, 2]))], "n": n,
                "marks": [first] + sorted(rng.sample(range(first + 20, n - 1), MARKS - 1))}

    def valid(self, s):
        return bool(s["chain"]) or bool(s.get("long"))

    def simplify(self, s):
        for key, value in (("gc", "gc off"), ("place", "place lifo")):
            if s[key] != value: yield {**s, key: value}
        for i, (work, route) in enumerate(s["chain"]):
            for j in range(len(work)):
                yield {**s, "chain": s["chain"][:i] + [[work[:j] + work[j + 1:], route]] + s["chain"][i + 1:]}
            smaller = [] if route in ("-", "if", ["if"]) else [["if"]] + ([route[:j] + route[j + 1:] for j in range(len(route))] if len(route) > 1 else []) + [route[:j] + [route[j][0]] + route[j + 1:] for j in range(len(route)) if isinstance(route[j], list)]
            for r in smaller: yield {**s, "chain": s["chain"][:i] + [[work, r]] + s["chain"][i + 1:]}
        if "long" in s and s["n"] > 9000: yield {**s, "n": 9000}

    def plans(self, s):
        text = "cpu 60\nsteps 30000000\nmaxfd 200\nfile /sim/home/l.ss " + hexed("(define loaded 1) loaded") + "\nfile /sim/home/in " + hexed("line\nline\n") + "\n"
        text += forms("(define global 0)", "(define openings 0)", "(define state (make-vector 1 0))", "(define parameter (make-parameter 0))", "(define converted (make-parameter 0 (lambda (x) (list x))))", "(define-record-type person (make-person age) person? (age person-age))",
                      "(define (vector-ref-error) (quotient 1 0))", "(define (mk n) (let loop ((i 0) (x '())) (if (< i n) (loop (+ i 1) (cons i x)) x)))",
                      "(define (repeat s n) (let ((p (open-output-string))) (let loop ((i 0)) (if (< i n) (begin (write-string s p) (loop (+ i 1))) (get-output-string p)))))")
        text += f"stack 262144\n"
        if "long" in s:
            return [(Boot("full"), text + s["place"] + "\n" + s["gc"] + "\n" + forms(f"(define n {s['n']})", *[f"(sim-log (list 'result {LONG[k][0]}))" for k in s["long"]]))]
        text += forms("(define marks '(" + " ".join(map(str, s["marks"])) + "))", "(define (tick i) (if (and (pair? marks) (= i (car marks))) (begin (set! marks (cdr marks)) (sim-collect) (sim-collect) (sim-log (list 'mark (sim-live) (sim-stack) (sim-descriptors))))) #t)")
        if s["shape"]:
            body = SHAPES[s["shape"]].replace("{work}", " ".join(WORK[w] for w in s["chain"][0][0]))
            text += forms(f"(define (run n) {self.around(s, body)})")
        else:
            text += forms(f"(define n {s['n']})")
            for k, (work, route) in enumerate(s["chain"]):
                target = f"f{(k + 1) % len(s['chain'])}"
                call = routed(route, call=f"({target} (+ i 1) 'a)", self=target, self1=f"(lambda (x) ({target} x 'a))", next="(+ i 1)", test="(< -1 i)")
                text += forms(f"(define (f{k} i a) (tick i) " + "".join(f"{WORK[w]} " for w in work) + f"(if (< i n) {call} 'end))")
            text += forms(f"(define (run n) {self.around(s, '(f0 0 (quote a))')})")
        return [(Boot("full"), text + s["place"] + "\n" + s["gc"] + "\n" + forms(f"(define result (run {s['n']}))") + "gc off\n" + forms("(sim-log (list 'result result))"))]

    def around(self, s, body):
        for a in s["around"]: body = AROUND[a].replace("{x}", body)
        return body

    def judge(self, s, logs, ctx):
        log = logs[0]
        crash_check(log)
        if log.end == "budget": # too many collections, for example
            ctx.probe("too long")
            return
        if log.end != "done": raise Violation("stopped", f"the program ended with {log.end}")
        marks = [tuple(map(int, line.strip("()").split()[1:])) for line in log.logs if line.startswith("(mark ")]
        result = [line for line in log.logs if line.startswith("(result ")]
        if "long" in s:
            n = s["n"]
            if len(result) != len(s["long"]): raise Violation("incomplete", f"no result: {list(log.results.values())[-5:]}")
            for k, line in zip(s["long"], result):
                want = {"n": n, "2n": 2 * n, "2n2": 2 * n + 2, "n-10": n - 10, "n+1": n + 1, "n/10": n // 10, "sum": n * (n - 1) // 2, "last": n - 1}.get(LONG[k][1], LONG[k][1])
                if line[8:-1] != str(want): raise Violation("result", f"{LONG[k][0]} with n = {n} is {line[8:-1]}, not {want}")
                ctx.probe("operations on long data")
            return
        if len(result) != 1: raise Violation("incomplete", f"no result: {list(log.results.values())[-2:]}")
        value = result[0][8:-1]
        if value != "end": raise Violation("result", f"the iteration ended with {value}")
        if len(marks) != MARKS: raise Violation("incomplete", f"{len(marks)} measurements")
        for what, k, slack in (("objects", 0, 40), ("bytes of stack", 1, 0), ("descriptors", 2, 0)):
            if marks[-1][k] - marks[1][k] > slack or all(b[k] > a[k] for a, b in zip(marks[1:], marks[2:])):
                raise Violation("grows", f"{what}: {[m[k] for m in marks]} after {s['marks']} iterations")
        ctx.probe("iterations measured")

    def nontrivial(self, s, logs):
        return logs[0].end == "done"


PROPERTY = C15()
