from mk_bug import *

bug("B09", "C10", [("library/srfi-39.ss", """                            body
                            (lambda () (install-dynamic-bindings! outer))))""", """                            (lambda ()
                              (map (lambda (cell)
                                     (set-cdr! cell ((car cell) (cdr cell) 'convert)))
                                   inner)
                              (body))
                            (lambda () (install-dynamic-bindings! outer))))"""),
    ("library/srfi-39.ss", "                   (cons parameter (parameter value 'convert)))", "                   (cons parameter value))")],
    scheme("""(define p (make-parameter 1))
(define q (make-parameter 0 (lambda (x) (list x (p)))))
(write (parameterize ((p 2) (q 5)) (q)))
(write (parameterize ((q 5) (p 2)) (parameterize ((q (p))) (q))))""", "((5 1)(2 2))".replace("((5", "(5").replace("2))", "2)")),
    "a converter that reads a parameter which is bound by the same parameterize, or that leaves",
    "the converter runs within the extent, and sees the bindings that it takes part in making")

bug("B10", "C08", [("library/meevax.ss", """              (install-dynamic-extents! (cdr (current-dynamic-extents)))
              (after)
              result)""", """              (after)
              (install-dynamic-extents! (cdr (current-dynamic-extents)))
              result)""")],
    scheme("""(define n 0)
(call/cc (lambda (k) (dynamic-wind (lambda () #f) (lambda () 'x) (lambda () (set! n (+ n 1)) (k 'out)))))
(write n)""", "1"),
    "a jump out of the last thunk of dynamic-wind, or an exception in it, after the extent was left in the normal way",
    "the extent is taken to be in effect still while its last thunk runs, so that the thunk runs twice")

bug("B11", "C16", [("library/srfi-45.ss", """                      (promise-update! promise* promise))
                  (force promise))""", """                      (promise-update! promise* promise))
                  (force promise*))""")],
    scheme("""(define n 0)
(define p (delay (begin (set! n (+ n 1)) (if (< n 3) (+ 1 (force p)) n))))
(write (let* ((a (force p)) (b (force p))) (list a b)))""", "(3 3)", "(scheme base) (scheme write) (scheme lazy)"),
    "a promise that is forced again while it is computed, and whose computations give different values",
    "the outer force returns its own value instead of the first one")

bug("B12", "C12", [("src/kernel/environment.cpp", "        if (let const& renaming = assq(car(identity), renamings); renaming != f)\n", "        if (let const& renaming = assq(car(identity), renamings); renaming != f and assq(cadr(renaming), renamings) == f) // The new name is the one of another binding, which would be in conflict.\n")],
    scheme("""(import (rename (demonstration) (a b) (b a) (c d)))
(write (list a b d))""", "(2 1 3)", "(scheme base) (scheme write)\n        (prefix (demonstration) x:)", before="""mkdir lib && cat > demonstration.ss <<'EOS'
(define-library (demonstration)
  (import (scheme base))
  (export a b c)
  (begin (define a 1) (define b 2) (define c 3)))
EOS
sed -i '1,2d' program.ss
sed -i '1i (import (scheme base) (scheme write))' program.ss"""),
    "an import set that exchanges names, or passes them on, with rename",
    "names that are exchanged keep their old meaning")

bug("B13", "C17", [("src/kernel/textual_context.cpp", """    LOCATE(source_directory());

    LOCATE(std::filesystem::current_path());""", """    LOCATE(std::filesystem::current_path());

    LOCATE(source_directory());""")],
    scheme("""(import (scheme base) (scheme write))
(write 'unused)""", "beside", before="""mkdir d
echo "(import (scheme base) (scheme write)) (include \\"part\\")" > d/main.ss
echo "(display 'beside)" > d/part.ss
echo "(display 'elsewhere)" > part.ss""", run='timeout 100 "$M" d/main.ss'),
    "two files of the same name, one beside the file that includes it and one in the working directory, and a name without its extension",
    "the file in the working directory is taken")

bug("B14", "C14", [("src/kernel/configuration.cpp", "environment().load(*iter);", "static auto toplevel = environment(); // All libraries are the same: build the environment once.\n\n        toplevel.load(*iter);")],
    scheme("(define secret 1)", "free", "(scheme base)", before="""echo "(import (scheme base) (scheme write)) (define (list . xs) 'mine)" > first.ss
echo "(import (scheme write) (only (scheme base) quote if)) (display (if #f 'mine 'free))" > second.ss
echo "(import (scheme base)) (define x 'first)" > third.ss
echo "(import (scheme base) (scheme write) (scheme eval)) (display (if (eq? (call/cc (lambda (k) (with-exception-handler (lambda (e) (k 'none)) (lambda () x)))) 'first) 'seen 'free))" > fourth.ss""", run='timeout 100 "$M" third.ss fourth.ss'),
    "two or more files on one command line, of which a later one uses a name that an earlier one defined",
    "definitions of one program are seen in the next one")

bug("B15", "C15", [("src/kernel/generator.cpp", "                               tail ? list(make<instruction>(instruction::secd_tail_letrec))", "                               tail and cddr(form).is<null>() ? list(make<instruction>(instruction::secd_tail_letrec))")],
    scheme("""(define (run n)
  (if (< 0 n)
      (letrec ((even? (lambda (n) #t)))
        (set! n (- n 1))
        (run n))
      'done))
(write (run 2000000))""", "done", run='(ulimit -v 200000; timeout 250 "$M" program.ss)'),
    "an iteration through the body of a letrec that has more than one expression",
    "the call is not a tail call any more: every iteration leaves a frame")

bug("B16", "C04", [("src/kernel/binary_input_file_port.cpp", "    if (auto buffer = std::vector<std::uint8_t>(size); ifstream.read(reinterpret_cast<char *>(buffer.data()), size))\n", "    ifstream.peek(); // Wait for something to arrive.\n\n    if (auto buffer = std::vector<std::uint8_t>(size); static_cast<std::size_t>(ifstream.readsome(reinterpret_cast<char *>(buffer.data()), size)) == size)\n")],
    HEAD + '''cd "$scratch" || exit 9
cat > program.ss <<'EOS'
(import (scheme base) (scheme write) (scheme file))
(define p (open-binary-input-file "pipe"))
(let* ((a (read-bytevector 6 p)) (b (read-bytevector 6 p))) (write (list a b (eof-object? (read-u8 p)))))
EOS
mkfifo pipe
(exec 3> pipe; printf abc >&3; sleep 1; printf def >&3; sleep 1; printf gh >&3) &
timeout 60 "$M" program.ss > got 2>&1
[ "$(cat got)" = "(#u8(97 98 99 100 101 102) #u8(103 104)#t)" ] || [ "$(cat got)" = "(#u8(97 98 99 100 101 102) #u8(103 104) #t)" ] || { head -c 300 got; exit 1; }
''',
    "a pipe or device that delivers fewer bytes at a time than the program asks for",
    "the bytes that have arrived are returned as if the input ended there")

bug("B17", "C19", [("src/kernel/dynamic_environment.cpp", "      if (auto thrown = error(make<string>(exception.what()), unit); exception_handler)\n", "      if (dynamic_cast<std::bad_alloc const*>(&exception))\n      {\n        collect(); // Make room and execute the instruction again.\n\n        goto execute;\n      }\n      else if (auto thrown = error(make<string>(exception.what()), unit); exception_handler)\n")],
    scheme("""(write (guard (e (#t 'error)) (vector-length (make-vector 1000000000000000 0))))""", "error", run='(ulimit -v 4000000; timeout 60 "$M" program.ss)'),
    "a request for more storage than there is, even after a collection",
    "the request is repeated without end instead of being reported")

bug("B18", "C11", [("library/srfi-34.ss", "(raise-continuable condition)", "(raise condition)")],
    scheme("""(write (with-exception-handler
  (lambda (e) 10)
  (lambda () (+ 1 (guard (x ((string? x) 'string)) (raise-continuable 'a))))))""", "11"),
    "raise-continuable within a guard none of whose clauses applies, with a handler outside that returns",
    "the value of the outer handler does not get back to the point of raise-continuable; a secondary exception is raised")
