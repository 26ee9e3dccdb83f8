from mk_bug import *

ALLOCATE = "(define (allocate n) (let loop ((i 0) (x '())) (if (< i n) (loop (+ i 1) (list i i i i)) x)))\n"

bug("B01", "C01", [("src/kernel/dynamic_environment.cpp", """          s.reset<truthy, truthy>(cons(callee.as<procedure>().call(cadr(s)), car(d)));""", """          auto && f = callee.as<procedure>();
          auto && xs = cadr(s);
          s.reset<truthy, std::identity>(car(d)); // The operands are not needed any more.
          s.reset<std::identity, truthy>(cons(f.call(xs), s));""")],
    scheme("(define (iota n x) (if (< 0 n) (iota (- n 1) (cons n x)) x))\n(define (sum x n) (if (pair? x) (sum (cdr x) (+ n (car x))) n))\n(define (f n) (append (iota n '()) (iota n '()) (iota n '()) '()))\n(write (list (sum (f 1000) 0) (sum (f 100000) 0) (sum (f 150000) 0) (sum (f 50000) 0) (sum (f 200000) 0)))", "(1501500 15000150000 33750225000 3750075000 60000300000)"),
    "a collection while a procedure of the kernel that is called in tail position allocates and runs on operands that nothing else refers to",
    "the operands are reclaimed while the procedure reads them")

bug("B02", "C02", [("src/kernel/collector.cpp", "    size = 0;\n\n    auto new_data", "    auto new_data")],
    scheme("(define (loop i) (if (< 0 i) (begin (make-vector 1000 i) (loop (- i 1))) 'done))\n(write (loop 1200000))", "done", run='(ulimit -v 700000; timeout 250 "$M" program.ss)'),
    "several collections: each leaves the size of what was collected before in the count, so that the threshold grows with all that was ever allocated",
    "storage grows without bound although the reachable data stay the same")

bug("B03", "C03", [("src/kernel/textual_input_port.cpp", "else if (0xF0 <= c and c <= 0xF4) // 21 bit", "else if (0xF0 <= c and c < 0xF4) // 21 bit")],
    scheme('(define p (open-input-string (string (integer->char 65) (integer->char #x100000) (integer->char #x10FFFF))))\n(define a (read-char p))\n(define b (read-char p))\n(define c (read-char p))\n(write (map char->integer (list a b c)))', "(65 1048576 1114111)"),
    "a character of the last plane, whose UTF-8 form begins with F4", "such characters are reported as errors instead of being read")

bug("B04", "C06", [("src/kernel/boot.cpp", "try { if (not std::filesystem::remove(car(xs).as<string>().utf8())) { throw file_error(make<string>(\"failed to remove file\"), car(xs)); } else { return unspecified; } } catch (std::filesystem::filesystem_error const& e) { throw file_error(make<string>(e.what()), car(xs)); }", "if (not std::filesystem::remove(car(xs).as<string>().utf8())) { throw file_error(make<string>(\"failed to remove file\"), car(xs)); } else { return unspecified; }")],
    scheme("(define (attempt f) (call/cc (lambda (k) (with-exception-handler (lambda (e) (k (file-error? e))) f))))\n(write (attempt (lambda () (delete-file \"missing\"))))\n(write (attempt (lambda () (delete-file \"d\"))))", "#t#t", "(scheme base) (scheme write) (scheme file)", before="mkdir d; echo > d/f"),
    "a removal that fails for another reason than that the file does not exist", "the object raised does not satisfy file-error?")

bug("B05", "C07", [("src/kernel/textual_input_port.cpp", """            case '|':
              switch (peek_character())
              {
              case '#':
                take_character();
                --nest;""", """            case '|':
              switch (take_character())
              {
              case '#':
                --nest;""")],
    scheme("(write (read (open-input-string \"(a #| b ||# c)\")))\n(write (read (open-input-string \"(a #|# b |# c)\")))", "(a c)(a c)", "(scheme base) (scheme write) (scheme read)"),
    "a block comment that ends with two vertical bars before the number sign", "the comment does not end there and the rest of the source is discarded")

bug("B06", "C09", [("src/kernel/dynamic_environment.cpp", """          s.reset<truthy, truthy>(cons(callee.as<procedure>().call(cadr(s)), cddr(s)));
          c.reset<truthy, truthy>(cdr(c));""", """          cadr(s) = callee.as<procedure>().call(cadr(s)); // Reuse the pair of the operands.
          s.reset<truthy, truthy>(cdr(s));
          c.reset<truthy, truthy>(cdr(c));""")],
    scheme("(define k #f)\n(define n 0)\n(define (f) (list ((call/cc (lambda (c) (set! k c) +)) 10 4)))\n(write (f))\n(k -)\n(k *)", "(14)(6)(40)"),
    "a continuation captured in operator position and called again with a procedure of the kernel", "the second call finds the result of the first in place of the operands")

bug("B07", "C13", [("src/kernel/boot.cpp", "make<large_integer>(std::chrono::high_resolution_clock::now().time_since_epoch().count())", "make<small_integer>(static_cast<small_integer>(std::chrono::duration_cast<std::chrono::milliseconds>(std::chrono::high_resolution_clock::now().time_since_epoch()).count()))"),
                   ("src/kernel/boot.cpp", "make<large_integer>(std::chrono::high_resolution_clock::period::den)", "make<small_integer>(static_cast<small_integer>(std::chrono::milliseconds::period::den))")],
    scheme("(define (loop n t) (if (< 0 n) (let ((now (current-jiffy))) (if (< now t) (write 'back)) (loop (- n 1) now))))\n(loop 30 (current-jiffy))\n(write 'end)", "end", "(scheme base) (scheme write) (scheme time)",
           before="cc -shared -fPIC -O1 -o clock.so \"$here/clock.c\" || exit 0", run='LD_PRELOAD=$PWD/clock.so timeout 100 "$M" program.ss'),
    "more than 24 days between two readings, or a reading across a multiple of 2^32 milliseconds", "jiffies decrease",
    {"clock.c": "#include <time.h>\n/* each reading is eleven days after the one before */\nint clock_gettime(clockid_t c, struct timespec *t)\n{\n  static long n = 0;\n  t->tv_sec = 1700000000 + 950400 * ++n;\n  t->tv_nsec = 0;\n  return 0;\n}\n"})

bug("B08", "C20", [("src/kernel/string.cpp", """return os << red("\\\\x", std::hex, std::uppercase, c.codepoint, ";");""", """return os << red("\\\\x", std::hex, std::uppercase, static_cast<std::uint16_t>(c.codepoint), ";");""")],
    scheme("(define (text x) (let ((p (open-output-string))) (write x p) (get-output-string p)))\n(define x (string->symbol (string (integer->char 40) (integer->char 128512))))\n(define s (string (integer->char 955) (integer->char 128512)))\n(write (map (lambda (x) (equal? x (read (open-input-string (text x))))) (list s x)))", "(#t #t)", "(scheme base) (scheme write) (scheme read)"),
    "a character outside of the basic multilingual plane in a string or a quoted symbol", "another character is written and read back")
