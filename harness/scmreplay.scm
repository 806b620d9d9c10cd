; replay side of the symbolic primitives of engine/scm.py
(use-modules (srfi srfi-1) (ice-9 receive))
(define (sym-real n) (let ((v (assoc n %vals))) (if v (cdr v) 0)))
(define (sym-int n lo hi) (let ((v (assoc n %vals))) (if v (cdr v) lo)))
(define pick-int sym-int)
(define %bad 0)
(define %real-display display)
(define (%say . x) (for-each (lambda (y) (%real-display y)) x) (%real-display "\n") (force-output))
(define (assume c) (if (not c) (begin (%say "ASSUMPTION-VIOLATED") (primitive-exit 3))))
(define (check l c) (if (not c) (begin (set! %bad 1) (%say "CHECK-FAILED " l))))
(define (%close a b)
  (cond ((and (number? a) (number? b)) (<= (magnitude (- a b)) (* 1e-9 (+ 1e-3 (magnitude a) (magnitude b)))))
	((and (pair? a) (pair? b)) (and (%close (car a) (car b)) (%close (cdr a) (cdr b))))
	((and (vector? a) (vector? b)) (and (= (vector-length a) (vector-length b)) (%close (vector->list a) (vector->list b))))
	(else (equal? a b))))
(define (check= l a b) (if (not (%close a b)) (begin (set! %bad 1) (%say "CHECK-FAILED " l ": " a " is not " b))))
(define (check<= l a b) (if (not (<= a (+ b (* 1e-9 (+ 1e-3 (magnitude a) (magnitude b)))))) (begin (set! %bad 1) (%say "CHECK-FAILED " l ": " a " > " b))))
(define (integral? x) (<= (magnitude (- x (round x))) 1e-9))
(define (or* . l) (if (null? l) #f (or (car l) (apply or* (cdr l)))))
(define (and* . l) (if (null? l) #t (and (car l) (apply and* (cdr l)))))
(define (reached n) #t)
(define %out '())
(define (display x . port) (set! %out (cons x %out)))
(define (write x . port) (set! %out (cons x %out)))
(define (newline . port) (set! %out (cons "\n" %out)))
(define (captured) (let ((r (reverse %out))) (set! %out '()) r))
(define (show . x) (apply %say x))
(define (exact->inexact x) x)
(define (inexact x) x)
(define (inexact->exact x) x)
(define (current-time) 0)
(define (file-exists? f) #f)
(define (%run thunk)
  (catch #t thunk (lambda (k . a) (%say "CHECK-FAILED run-time error " k " " a) (set! %bad 1)))
  (%say (if (zero? %bad) "REPLAY-OK" "REPLAY-BAD"))
  (primitive-exit (if (zero? %bad) 0 1)))
