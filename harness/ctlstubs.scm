; stand-ins for the functions implemented in C: they record their calls (the log) and return given values
(define geometry-lattice '())
(define (object-property-value o p) (cdr (assq p o)))
(define (set-lattice! a b c) (set! geometry-lattice (list (cons 'basis (matrix3x3 a b c)) (cons 'basis-size (vector 1 1 1)) (cons 'size (vector 1 1 1)))))
(define interactive? #f)
(define %log '())
(define (log! . x) (set! %log (cons x %log)))
(define (get-log) (let ((l (reverse %log))) (set! %log '()) l))
(define %kindex 0)
(define %solves 0)
(define %mu? #f)
(define (init-params p reset) (log! 'init p reset) (set! parity (if (= p 2) "tm" "")))
(define (load-eigenvectors f) (log! 'load f))
(define (set-kpoint-index i) (set! %kindex i) (log! 'set-index i))
(define (get-kpoint-index) %kindex)
(define (using-mu?) %mu?)
(define (get-epsilon) (log! 'get-epsilon))
(define (get-mu) (log! 'get-mu))
(define (output-field-to-file c p) (log! 'output c p))
(define (randomize-fields) (log! 'randomize))
(define (freq-of call band) 1)   ; a harness replaces this
(define iterations 7)
(define (solve-kpoint k)
  (set! %solves (+ %solves 1)) (set! %kindex (+ %kindex 1))
  (log! 'solve k num-bands)
  (set! freqs (map (lambda (b) (freq-of %solves b)) (arith-sequence 1 1 num-bands))))
(define (num-name s . l) (string-append s (apply string-append (map (lambda (i) (string-append "_" (number->string i))) l))))
; what was printed, with neighbouring texts and whole numbers run together
(define (canon l)
  (define (go l cur out)
    (cond ((null? l) (reverse (if (string-null? cur) out (cons cur out))))
	  ((string? (car l)) (go (cdr l) (string-append cur (car l)) out))
	  ((and (number? (car l)) (exact? (car l)) (integer? (car l))) (go (cdr l) (string-append cur (number->string (car l))) out))
	  (else (go (cdr l) "" (cons (car l) (if (string-null? cur) out (cons cur out)))))))
  (go l "" '()))
(define (log-filter keys l) (list-transform-positive l (lambda (x) (memq (car x) keys))))
(define (upto a b) (if (> a b) '() (cons a (upto (+ a 1) b))))
