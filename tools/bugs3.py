from mk_bug import *

bug("B19", "C25", [("src/kernel/boot.cpp", '{ "vector-append",                 [](let const& xs) { let v', '{ "vector-append",                 [](let const& xs) { if (xs.is<pair>() and cdr(xs).is<null>()) { return car(xs); } let v')],
    scheme("""(define a (vector 1 2 3))
(define b (vector-append a))
(vector-set! b 0 'x)
(write a)
(write b)""", "#(1 2 3)#(x 2 3)"),
    "vector-append of a single vector, and an assignment to an element of the result or of the argument",
    "the vector returned is the argument itself, so that assignments to one are seen in the other")

bug("B20", "C26", [("src/kernel/environment.cpp", """      for (let const& x : input)
      {
        evaluate(x);
      }
    }
    else
    {
      throw file_error(""", """      auto expressions = std::vector<object>();

      for (let const& expression : input)
      {
        expressions.push_back(expression);
      }

      for (auto const& x : expressions)
      {
        evaluate(x);
      }
    }
    else
    {
      throw file_error(""")],
    scheme("""(define e (environment '(scheme base)))
(eval '(define a 1) e)
(guard (e (#t (display "failed "))) (load "part.scm" e))
(write (eval 'a e))""", "failed 2", "(scheme base) (scheme write) (scheme load) (scheme eval)", before="echo '(define a 2) (define b' > part.scm"),
    "a file that is loaded and that cannot be read to its end, because of a malformed datum or a failing read",
    "what comes before the place of the failure is not evaluated")

bug("B21", "C24", [("src/kernel/boot.cpp", "{ return make<string>(car(xs).as<output_string_port>().ostringstream.str()); }", "{ let const s = make<string>(car(xs).as<output_string_port>().ostringstream.str()); car(xs).as<output_string_port>().ostringstream.str(\"\"); return s; }")],
    scheme("""(define p (open-output-string))
(write 'a p)
(define x (get-output-string p))
(write 'b p)
(define y (get-output-string p))
(display x)
(display #\\space)
(display y)""", "a ab"),
    "get-output-string more than once for the same port",
    "each time only the text since the last time is given")

bug("B22", "C06", [("src/kernel/error.cpp", "    return meevax::make<file_error>(*this);", "    return irritants() ? meevax::make<file_error>(*this) : meevax::make<error>(*this);")],
    scheme("""(define p (open-output-file "/dev/full"))
(write 'something p)
(write (guard (e ((file-error? e) 'file-error) (else 'other)) (flush-output-port p) 'none))""", "file-error", "(scheme base) (scheme write) (scheme file)"),
    "a write or read that fails (a full disk, an input error), which raises an error without irritants",
    "the error object does not satisfy file-error?")

bug("B23", "C09", [("src/kernel/dynamic_environment.cpp", """        cadar(s) = cadr(s);
        c.reset""", """        if (cadar(s).is<null>()) // Not initialized yet.
        {
          cadar(s) = cadr(s);
        }

        c.reset""")],
    scheme("""(define k #f)
(define r '())
(define count 0)
(define (g) (letrec ((x (call/cc (lambda (c) (set! k c) 1))) (y 5)) (set! x (+ x y)) x))
(define (run) (let ((v (g))) (set! r (cons v r)) (set! count (+ count 1)) (if (< count 3) (k (* 100 count)) r)))
(write (run))""", "(205 105 6)"),
    "a continuation captured in an initial expression of letrec or of an internal definition in tail position, and entered again",
    "the variables keep the values of the first time")

bug("B24", "C05", [("src/kernel/boot.cpp", "[](let const& xs) { car(xs).as<output_port>().flush(); return unspecified; }", "[](let const& xs) { if (not car(xs).is<binary_output_file_port>()) { car(xs).as<output_port>().flush(); } return unspecified; }")],
    scheme("""(define p (open-binary-output-file "out"))
(write-u8 65 p)
(write-bytevector (bytevector 66 67) p)
(flush-output-port p)
(write (call-with-port (open-binary-input-file "out") (lambda (q) (read-bytevector 10 q))))""", "#u8(65 66 67)", "(scheme base) (scheme write) (scheme file)"),
    "a binary file that is flushed, and read or left by a crash before it is closed",
    "what was flushed is not in the file yet")

bug("B26", "C02", [("src/kernel/collector.cpp", "    capacity = std::max(capacity, size + (size / 2));", "    capacity = std::max(capacity, capacity + (size / 2));")],
    scheme("""(define keep (make-vector 400000 '()))
(define (fill i) (if (< i 400000) (begin (vector-set! keep i (cons i i)) (fill (+ i 1)))))
(fill 0)
(define (churn n) (if (> n 0) (begin (make-vector 1000 n) (churn (- n 1)))))
(churn 200000)
(write 'done)""", "done", run='(ulimit -v 400000; timeout 250 "$M" program.ss)'),
    "a program with much live data that goes on to make garbage: every collection moves the limit for the next one further away",
    "the memory used grows without bound although the live data stays the same")
