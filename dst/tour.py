"""A tour of the libraries: expressions that touch primitives and procedures which the grammars of the other checks leave out.

Each entry is (import sets, expressions); an expression may use the variables n (a small positive integer), xs (a fresh list of
n+3 freshly allocated objects), s (a fresh string of n+3 characters) and big (an integer of some 25 digits)."""

TOUR = [
    ("", [
        "(list (string<? s \"b\") (string<=? s s) (string>? s \"é\") (string>=? s \"漢\" \"a\") (string-ci=? s (string-upcase s)) (string-ci<? \"A\" \"b\") (string-ci>? \"A\" \"b\" \"C\") (string-ci<=? \"a\" \"A\") (string-ci>=? \"a\" \"A\"))",
        "(list (char<? #\\a #\\b #\\c) (char<=? #\\a #\\a) (char>? #\\c #\\b) (char>=? #\\λ #\\a) (char-ci=? #\\A #\\a) (char-ci<? #\\a #\\B) (char-ci>? #\\a #\\B) (char-ci<=? #\\a #\\B) (char-ci>=? #\\a #\\B))",
        "(list (char-alphabetic? #\\λ) (char-numeric? #\\5) (char-whitespace? #\\space) (char-upper-case? #\\A) (char-lower-case? #\\A) (digit-value #\\7) (char-downcase #\\Λ) (char-foldcase #\\Σ))",
        "(let ((t (string-copy s))) (string-set! t 1 #\\漢) (string-set! t 0 #\\x) (string-fill! t #\\é 2) (list t (string-length t) (string-ref t 2)))",
        "(let ((t (make-string (+ n 6) #\\-))) (string-copy! t 2 s 0 3) (list t (string-copy t 1) (string-copy t 1 4) (substring s 1 3)))",
        "(list (string->vector s) (vector->string (vector #\\a #\\漢 #\\c) 1) (string->vector s 1 2) (vector->string (string->vector s)))",
        "(list (vector-copy (list->vector xs) 1 3) (vector->list (list->vector xs) 1) (vector-append (vector 1) (list->vector xs) (vector)))",
        "(let ((v (make-vector (+ n 5) (list n)))) (vector-copy! v 1 (list->vector xs) 0 2) (vector-fill! v (string #\\a) 3 4) v)",
        "(let ((b (make-bytevector (+ n 6) 1))) (bytevector-copy! b 2 (bytevector 7 8 9) 1 3) (bytevector-u8-set! b 0 255) (list b (bytevector-copy b 1 4) (bytevector? b) (bytevector-append b b)))",
        "(list (string->list s 1) (string->list s 1 2) (string-append s s s) (list->string (list #\\a #\\漢)) (string-map char-upcase s) (string-map (lambda (a b) b) s \"xyz\"))",
        "(let ((o '())) (string-for-each (lambda (a b) (set! o (cons (list a b) o))) s \"wxyz\") (vector-for-each (lambda (x) (set! o (cons x o))) (list->vector xs)) o)",
        "(list (string-foldcase s) (string-downcase \"ÀÉ\") (string-upcase s) (utf8->string (string->utf8 s)) (string->utf8 s 1) (string->utf8 s 1 2) (utf8->string (bytevector 97 98 99) 1 2))",
        "(list (exact-integer? big) (gcd big 36) (lcm 12 big) (abs (- big)) (max 1 n 2/3) (min n 1/2) (floor 7/2) (ceiling -7/2) (round 5/2) (truncate -5/3) (numerator 6/4) (denominator 6/4))",
        "(call-with-values (lambda () (exact-integer-sqrt big)) list)",
        "(list (call-with-values (lambda () (floor/ (- big) 97)) list) (call-with-values (lambda () (truncate/ (- big) 97)) list) (floor-quotient -7 2) (floor-remainder -7 2) (truncate-quotient -7 2) (truncate-remainder -7 2) (modulo (- big) 97) (remainder (- big) 97))",
        "(list (square big) (expt big n) (expt 2/3 n) (* big big big) (quotient (* big big) big) (- (* big 1/3) 1/7) (/ big (+ big 1)) (exact (floor 2.5)) (rationalize 3/10 1/10))",
        "(list (number->string big 16) (number->string big 2) (string->number \"ff\" 16) (string->number (number->string big)) (string->number \"1/3\") (string->number \"-1e3\"))",
        "(list (exp 1) (log 2.5) (sin 1) (cos 1) (tan 1) (asin 0.5) (acos 0.5) (atan 1) (atan 1 2) (sqrt 16) (sqrt 2) (exact (truncate 1e18)) (nan? 1.5) (finite? 1.5) (infinite? 1.5))",
        "(list (boolean=? #t #t) (symbol=? 'a 'a 'a) (eqv? big (+ big 0)) (equal? (vector xs s) (vector xs (string-copy s))))",
        "(list (memv n (list 1 2 big n)) (memq 'c '(a b c d)) (assv big (list (cons 1 2) (cons big s))) (member s (list \"x\" (string-copy s) \"y\")) (assoc 2.0 '((1 one) (2 two)) =) (member 2.0 (list 1 2 3) =))",
        "(let ((l (list-copy xs))) (list-set! l 1 (list 'new)) (list l (list-tail l 2) (list-ref l 0) (append l l '() (list 1) 'tail) (list? l)))",
        "(list (make-list n (string #\\a)) (apply max n '(1 2 3)) (apply list xs) (map (lambda (a b c) (list a b c)) xs xs '(1 2)) (vector-map (lambda (a b) (cons a b)) (vector 1 2 3) (list->vector xs)))",
        "(let* ((p (open-input-string \"abc\\ndéf\\n\\nrest\"))) (let* ((a (read-line p)) (b (peek-char p)) (c (read-char p)) (d (read-line p)) (e (read-line p)) (f (read-string 10 p)) (g (read-line p))) (list a b c d e f (eof-object? g))))",
        "(let* ((p (open-input-bytevector (bytevector 1 2 3 4 5 6))) (b (make-bytevector 4 0)) (x (peek-u8 p)) (y (read-u8 p)) (z (read-bytevector! b p 1 3)) (w (read-bytevector 10 p)) (v (read-u8 p))) (list x y z b w (eof-object? v)))",
        "(let ((o (open-output-string))) (write (list s 'sym #\\a 1.5 1/2 big (vector) (bytevector 1 2)) o) (newline o) (write-char #\\x o) (write-string s o 1) (write-string s o 1 2) (display xs o) (write-simple xs o) (write-shared (list xs xs) o) (get-output-string o))",
        "(let ((o (open-output-bytevector))) (write-u8 7 o) (write-bytevector (bytevector 1 2 3 4) o 1 3) (write-bytevector (string->utf8 s) o) (get-output-bytevector o))",
        "(let ((c (list 1 2 3 4))) (set-cdr! (cdddr c) c) (let ((o (open-output-string))) (write c o) (list (get-output-string o) (list? c))))",
        "(let ((c (read (open-input-string \"#0=(1 2 . #0#)\")))) (list (car c) (cadr c) (caddr c) (eq? c (cddr c))))",
        "(map (lambda (t) (read (open-input-string t))) (list \"(a . b)\" \"#(1 #u8(2 3))\" \"#\\\\x41\" \"\\\"\\\\x41;\\\"\" \"|a b|\" \"#x-ff\" \"#e1.5\" \"#;(a) b\" \"#| x |# c\" \"'(a `(b ,c ,@d))\" \"#true\"))",
        "(guard (e (#t (list (error-object? e) (error-object-message e) (error-object-irritants e) (read-error? e) (file-error? e)))) (error s xs big))",
        "(guard (e ((read-error? e) 'read) ((file-error? e) 'file)) (read (open-input-string \"(a . \")))",
        "(guard (e ((file-error? e) (list 'file (error-object? e)))) (open-input-file (string-append \"/sim/none\" s)))",
        "(guard (e (#t (list 'c e))) (with-exception-handler (lambda (e) (list e xs)) (lambda () (raise (raise-continuable (list s))))))",
        "(let ((f \"/sim/tour.txt\")) (call-with-output-file f (lambda (p) (write xs p) (newline p) (write-string s p))) (let* ((a (call-with-input-file f read)) (b (with-input-from-file f read-line)) (c (file-exists? f))) (delete-file f) (list a b c (file-exists? f))))",
        "(let ((f \"/sim/tour.bin\")) (let ((p (open-binary-output-file f))) (write-bytevector (string->utf8 s) p) (close-port p)) (let* ((p (open-binary-input-file f)) (b (read-bytevector 100 p))) (close-input-port p) (list b (input-port-open? p) (binary-port? p) (textual-port? p) (input-port? p) (output-port? p))))",
        "(let ((f (case-lambda (() 0) ((a) (list a)) ((a b) (list a b)) ((a b . c) (list a b c))))) (list (f) (f xs) (f s xs) (f 1 s big xs)))",
        "(let-values (((a b . c) (apply values xs)) ((d) (values s))) (list a b c d))",
        "(let*-values (((a b) (values s n)) ((c d) (values b a))) (list a b c d))",
        "(let () (define-values (a b . c) (apply values xs)) (list c b a))",
        "(let loop ((i 0) (r '())) (if (< i n) (loop (+ i 1) (cons (string-append s (number->string i)) r)) (list i r)))",
        "(case n ((1 2 3) => (lambda (x) (list x xs))) ((4 5) (list s)) (else => (lambda (x) (cons x s))))",
        "(when (< 0 n) (let ((x (list s))) (unless (null? x) (do ((i 0 (+ i 1)) (r '() (cons (vector i x) r))) ((= i n) r)))))",
        "(let-syntax ((my-let (syntax-rules () ((_ ((k v) ...) b ...) ((lambda (k ...) b ...) v ...)))) (lit (syntax-rules (=>) ((_ a => b) (list a b)) ((_ a b c) (vector a b c))))) (my-let ((a s) (b xs)) (list a b (lit 1 => 2) (let ((=> 0)) (lit 1 => 2)))))",
        "(letrec-syntax ((ev (syntax-rules () ((_) '()) ((_ a b ...) (cons 'e (od b ...))))) (od (syntax-rules () ((_) '()) ((_ a b ...) (cons 'o (ev b ...)))))) (ev 1 2 3 4 5))",
        "(let-syntax ((nest (syntax-rules () ((_ (a b ...) ...) '((b ... a) ...)))) (tail (syntax-rules () ((_ a ... z) '(z a ...)))) (vec (syntax-rules () ((_ #(a ...)) (list a ...))))) (list (nest (1 2 3) (4) (5 6)) (tail 1 2 3 4) (vec #(1 2 3))))",
        "(let ((p (delay-force (delay (list s xs))))) (list (promise? p) (force p) (eq? (force p) (force p)) (force (make-promise 5))))",
        "(let ((s1 (letrec ((ints (lambda (k) (delay (cons (list k) (ints (+ k 1))))))) (ints 0)))) (let loop ((i 0) (p s1) (r '())) (if (= i (+ n 3)) r (loop (+ i 1) (cdr (force p)) (cons (car (force p)) r)))))",
        "(let* ((p (make-parameter s (lambda (x) (list x n)))) (a (p)) (b (parameterize ((p xs)) (list (p) (parameterize ((p 1)) (p)))))) (list a b (p)))",
        "(let* ((o (open-output-string)) (r (parameterize ((current-output-port o)) (write xs) (newline) (display s) 'done))) (list r (get-output-string o)))",
        "(let* ((k2 #f) (c 0) (r (dynamic-wind (lambda () (set! c (+ c 1))) (lambda () (call/cc (lambda (k) (set! k2 k) (list s)))) (lambda () (set! c (+ c 10)))))) (if (< c 40) (k2 (list c r)) (list c r)))",
        "(let () (define-record-type <node> (node l r) node? (l left) (r right set-right!)) (let ((x (node xs (node s #f)))) (set-right! (right x) (node 1 2)) (list (left x) (left (right x)) (left (right (right x))) (node? x) (node? s))))",
        "(list (eval '(let ((x 1)) (cons x '(2 3))) (environment '(scheme base))) (eval (list 'quote xs) (interaction-environment)) (eval `(car ',xs) (environment '(prefix (scheme base) b:) '(only (scheme base) car quote))))",
        "(let ((x (list 1 2 3))) `(1 ,@x ,(car x) #(a ,n ,@x) `(nested ,(inner ,n)) . ,s))",
        "(list (let loop ((i 300) (a '())) (if (= i 0) (length a) (loop (- i 1) (cons i a)))) (string->symbol (string-append s \"é\")) (symbol->string 'abc) (eq? (string->symbol s) (string->symbol (string-copy s))))",
        "(let loop ((i 0) (x 1)) (if (< i (* 4 n)) (loop (+ i 1) (* x (+ i 1))) (list x (quotient x 1000007) (inexact x))))",
        "(list (string? (get-environment-variable \"HOME\")) (pair? (get-environment-variables)) (list? (command-line)) (list? (features)) (exact? (current-jiffy)) (jiffies-per-second) (real? (current-second)))",
        "(let ((p (open-input-string s))) (list (port? p) (input-port? p) (input-port-open? p) (char-ready? p) (textual-port? (current-error-port)) (output-port-open? (current-output-port))))",
        "(call-with-port (open-input-string (string-append s \" 12\")) (lambda (p) (read-char p) (list (read p) (read p))))",
        "(let* ((ks '()) (x (list (call/cc (lambda (k) (set! ks (list k)) 1)) (list s)))) (if (null? ks) x (let ((k (car ks))) (set! ks '()) (k (vector n)))))",
        "(let ((m (list (cons \"a\" 1) (cons s xs)))) (list (assoc (string-copy s) m) (assq 'b '((a 1) (b 2))) (map car m) 1))",
    ]),
    ("(srfi 1)", [
        "(list (xcons s xs) (cons* 1 2 xs) (list-tabulate n list) (iota n) (iota n 5) (iota n 0 3) (make-list n s))",
        "(let ((c (circular-list 1 s 3))) (list (circular-list? c) (car c) (cadr c) (list-ref c 4) (length+ c) (dotted-list? '(1 . 2)) (proper-list? xs) (not-pair? s) (null-list? '()) (list= eq? xs xs)))",
        "(list (first xs) (second xs) (third xs) (fifth '(1 2 3 4 5)) (tenth (iota 12)) (call-with-values (lambda () (car+cdr xs)) list))",
        "(list (take xs 2) (drop xs 2) (take-right xs 2) (drop-right xs 1) (take! (list-copy xs) 2) (drop-right! (list-copy xs) 2) (call-with-values (lambda () (split-at xs 1)) list) (call-with-values (lambda () (split-at! (list-copy xs) 2)) list) (last xs) (last-pair xs))",
        "(list (append! (list 1 2) '() (list s) xs) (append! '() (list 1)) (concatenate (list xs xs '(1))) (concatenate! (list (list 1) (list s))) (reverse! (list-copy xs)) (append-reverse xs '(1 2)) (append-reverse! (list-copy xs) (list s)))",
        "(list (zip xs '(1 2 3)) (call-with-values (lambda () (unzip2 (list (list 1 s) (list 2 s)))) list) (unzip1 (list (list s 2) (list 3 4))) (count number? (list 1 s 2)))",
        "(list (fold cons* '() xs '(1 2 3)) (fold-right list 'z xs) (reduce + 0 (iota n)) (reduce-right list 0 (list 1 2 s)) (pair-fold (lambda (p a) (cons (car p) a)) '() xs) (pair-fold-right cons '() (list 1 2 3)))",
        "(list (unfold (lambda (x) (> x n)) list (lambda (x) (+ x 1)) 0) (unfold-right zero? list (lambda (x) (- x 1)) n) (append-map (lambda (x) (list x s)) xs) (filter-map (lambda (x) (and (number? x) (* x x))) (list 1 s 2)) (map-in-order list xs))",
        "(list (filter string? (list s 1 s)) (remove string? (list s 1 s)) (call-with-values (lambda () (partition number? (list 1 s 2 xs))) list) (filter! number? (list 1 s 2)) (call-with-values (lambda () (partition! number? (list 1 s 2))) list))",
        "(list (find number? (list s 1)) (find-tail number? (list s 1 xs)) (any (lambda (x) (and (number? x) x)) (list s 3)) (every number? (list 1 s)) (list-index string? (list 1 2 s)) (take-while number? (list 1 2 s 3)) (drop-while number? (list 1 2 s 3)) (call-with-values (lambda () (span number? (list 1 s 2))) list) (call-with-values (lambda () (break string? (list 1 s 2))) list))",
        "(list (delete s (list 1 (string-copy s) 2)) (delete-duplicates (list 1 s 1 (string-copy s) big big)) (alist-cons 1 s '()) (alist-copy (list (cons 1 s))) (alist-delete 1 (list (cons 1 2) (cons 3 s))))",
        "(list (lset-union eqv? (list 1 2) (list 2 3) (list n)) (lset-intersection eqv? (list 1 2 3) (list 3 1)) (lset-difference eqv? (list 1 2 3) (list 2)) (lset-xor eqv? (list 1 2) (list 2 3)) (lset-adjoin eqv? (list 1 2) 2 3) (lset<= eqv? '(1) '(1 2)) (lset= eqv? '(1 2) '(2 1)))",
        "(let ((r '())) (pair-for-each (lambda (p) (set! r (cons (length p) r))) xs) (for-each (lambda (a b) (set! r (cons (list a b) r))) xs (circular-list 1 s)) r)",
    ]),
    ("(srfi 4)", [
        "(list (u8vector->list (u8vector 1 2 255)) (u8vector-ref (make-u8vector n 9) 0) (u8vector-length (u8vector)) (u8vector? (u8vector 1)) (f32vector? (u8vector 1)))",
        "(let ((v (make-s16vector n -7))) (s16vector-set! v 0 300) (list (s16vector->list v) (s16vector-length v)))",
        "(list (s8vector->list (list->s8vector '(-128 127))) (s32vector->list (s32vector -5 5)) (s64vector->list (list->s64vector (list -1 n))) (u16vector->list (u16vector 65535)) (u32vector-ref (u32vector 7 8) 1) (u64vector->list (make-u64vector 2 n)))",
        "(let ((v (list->f64vector (list 1.5 -2.25)))) (f64vector-set! v 1 0.5) (list (f64vector->list v) (f64vector-ref v 0) (f32vector->list (make-f32vector 2 1.5)) (equal? (f64vector 1.0) (f64vector 1.0))))",
    ]),
    ("(srfi 8)", ["(receive (a . b) (apply values xs) (list a b s))", "(receive all (values s n) all)"]),
    ("(srfi 31)", ["((rec (f k acc) (if (= k 0) acc (f (- k 1) (cons (list s k) acc)))) n '())", "(let ((s2 (rec x (cons 1 (delay x))))) (car (force (cdr s2))))"]),
    ("(srfi 45)", ["(let ((p (lazy (delay (list s))))) (list (force p) (eq? (force p) (force p)) (force (eager xs))))"]),
    ("(srfi 111)", ["(let* ((b (box xs)) (a (unbox b))) (set-box! b (list s a)) (list (unbox b) (box? b) (box? s)))"]),
    ("(srfi 38)", ["(let* ((x (list s s)) (y (vector x x)) (o (open-output-string))) (write-with-shared-structure y o) (let ((z (read-with-shared-structure (open-input-string (get-output-string o))))) (list (get-output-string o) (eq? (vector-ref z 0) (vector-ref z 1)))))"]),
    ("(srfi 141)", ["(list (call-with-values (lambda () (round/ big 7)) list) (call-with-values (lambda () (ceiling/ (- big) 7)) list) (call-with-values (lambda () (euclidean/ (- big) 7)) list) (balanced-quotient big 9) (balanced-remainder big 9) (ceiling-quotient n 2) (euclidean-remainder -7 n) (round-remainder 7 3))"]),
    ("(srfi 143)", ["(list (fixnum? n) (fx+ n 3) (fx* n 3) (fx- n 9) (fxabs -5) (fxmax 1 n) (fxand n 3) (fxior n 8) (fxarithmetic-shift n 2) (fxbit-count 255) (fxlength 1000) (fx<? n 5) (fxsquare n))"]),
    ("(srfi 144)", ["(list (fl+ 1.5 2.5) (fl* 2.5 2.0) (flmax 1.5 2.5) (flsqrt 2.25) (flfloor 2.5) (flexp 0.0) (flabs -1.5) (fl<? 1.5 2.5) (flnumerator 0.75) (fldenominator 0.75) (call-with-values (lambda () (flinteger-fraction 2.75)) list))"]),
    ("(srfi 151)", ["(list (bitwise-and big 65535) (bitwise-ior n 64) (bitwise-xor big big) (bitwise-not n) (arithmetic-shift n 70) (arithmetic-shift big -20) (bit-count 255) (integer-length big) (bit-set? 1 n) (copy-bit 3 n #t) (first-set-bit 8) (bit-field 1023 2 6))",
                    "(list (bits->list 13) (list->bits '(#t #f #t)) (bits->vector 5) (vector->bits (vector #t #t #f)) (bits #t #f #t) (bitwise-fold cons '() 11) (bitwise-unfold (lambda (i) (= i 6)) even? (lambda (i) (+ i 1)) 0) (bitwise-nand n 3) (bitwise-if 12 n 5) (bit-field-rotate 110 1 1 4) (bit-field-reverse 109 0 4))",
                    "(let ((g (make-bitwise-generator 6))) (let* ((a (g)) (b (g)) (c (g))) (list a b c s)))"]),
    ("(srfi 98)", ["(list (string? (get-environment-variable \"HOME\")) (get-environment-variable s) (map (lambda (p) (string? (car p))) (get-environment-variables)))"]),
    ("(scheme r5rs)", ["(list (exact->inexact 1/4) (inexact->exact 0.5) (eval '(+ 1 2) (scheme-report-environment 5)) (eval '((lambda (x) x) 'a) (scheme-report-environment 5)))"]),
    ("(scheme complex)", ["(list (make-rectangular n 2) (real-part (make-rectangular 1 n)) (imag-part (make-rectangular 1 n)) (* (make-rectangular 1 n) (make-rectangular n 1)) (magnitude (make-rectangular 3 4)))"]),
    ("(scheme cxr)", ["(let ((t '(((a b) c d) (e (f g) h) i j . k))) (list (caddr t) (cdddr t) (cadadr t) (caadr t) (cddadr t) (caaar t) (cdaar t) (cdar t) (cadar t) (cddar t) (caaadr (list 0 (list (list s))))))"]),
]


def tour(rng, count):
    """(imports, forms): forms log the encoded values of some expressions of one or two parts of the tour."""
    parts = [TOUR[0]] if rng.random() < 0.55 else [rng.choice(TOUR[1:])]
    if rng.random() < 0.3: parts.append(rng.choice(TOUR[1:]))
    imports = sorted({p[0] for p in parts if p[0]})
    out = []
    for _ in range(count):
        e = rng.choice(rng.choice(parts)[1])
        n = rng.randint(1, 6)
        s = rng.choice(["abc", "déjà", "漢字x", "A-b"]) + "".join(rng.choice("xyzé") for _ in range(n))
        big = rng.choice([1, -1]) * rng.randint(10**20, 10**26) if rng.random() < 0.2 else rng.randint(10**20, 10**26)
        out.append(f"(sim-log (enc (let* ((n {n}) (s (string-append \"{s}\" \"\")) (xs (list (list n) (string-copy s) (vector s n){''.join(' ' + rng.choice(['n', '(list s)', '(string #' + chr(92) + 'q)', '(/ n 7)', '(* n 1000000007 998244353)']) for _ in range(n))})) (big {big})) {e})))")
    return imports, out
