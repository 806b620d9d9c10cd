; find-k: the function handed to the root finder, its cache and its starting points.
; The root finder itself (libctl) is replaced: it asks for values at nq arbitrary points and returns one more arbitrary point.
(define omega 0)
(define calls '())       ; computed: (call k nb), newest first
(define (fq c b) (let* ((n (num-name "f" c b)) (p (assoc n %syms))) (if p (cdr p) (let ((f (sym n))) (assume (< 0 f)) (assume (< f 100000)) f))))
(define (abs<= a b) (or* (and* (<= a b) (<= (- a) b)) (and* (<= a (- b)) (<= (- a) (- b)))))
(define (vq c b) (sym (num-name "v" c b)))
(define %syms '())
(define (sym n) (let ((p (assoc n %syms))) (if p (cdr p) (let ((v (sym-real n))) (set! %syms (cons (cons n v) %syms)) v))))
(define (veq? a b) (and* (= (vector-ref a 0) (vector-ref b 0)) (= (vector-ref a 1) (vector-ref b 1)) (= (vector-ref a 2) (vector-ref b 2))))
(define korig '()) (define dir1 '())
(define bmin 1) (define bmax 1)
(define guesses '())
(define guess-list '())
(define cur-b 0)
(define results '())
(define (known b k)      ; the computation that already gave band b at k
  (let loop ((l calls)) (cond ((null? l) #f) ((and (>= (caddr (car l)) b) (= (cadr (car l)) k)) (car l)) (else (loop (cdr l))))))
(define (compute-group-velocity-component d)
  (check "group velocities are asked for along the search direction" (veq? d dir1))
  (log! 'velocity)
  (map (lambda (b) (vq %solves b)) (upto 1 num-bands)))
(define nq 1)
(define step 0)
(define (find-root-deriv f tol kmin kmax guess)
  (let ((b cur-b))
    (check= "tolerance and limits are passed on" (list tol kmin kmax) (list 1/1000 0 2))
    ; starting point: the best value known, else the user's guess
    (let ((have (list-transform-positive calls (lambda (c) (>= (caddr c) b)))))
      (if (null? have) (check= "without earlier results the user's guess is used" guess (list-ref guess-list (- b bmin)))
	  (begin
	    (reached "guess")
	    (let ((g (known b guess)))
	      (check "the starting point is one where this band is known" (pair? g))
	      (if (pair? g)
		  (let ((fg (- (fq (car g) b) omega)))
		    (for-each (lambda (c) (let ((d (- (fq (car c) b) omega))) (check "no known point is closer to the wanted frequency" (abs<= fg d)))) have)))))))
    (do ((i 0 (+ i 1))) ((= i nq))
      (set! step (+ step 1))
      (let* ((k (sym (num-name "k" step))))
	(let ((old (known b k)))
	  (get-log)
	  (let* ((before %solves) (r (f k)) (l (get-log)))
	    (if old
		(begin
		  (reached "cached")
		  (check "a known value is not computed again" (= %solves before))
		  (check= "a known value is returned with its derivative" r (cons (- (fq (car old) b) omega) (vq (car old) b))))
		(begin
		  (check "an unknown value is computed once" (= %solves (+ before 1)))
		  (let ((s (log-filter '(solve) l)))
		    (if (pair? s)
			(begin
			  (check "the requested band is the last one solved for" (= (caddr (car s)) b))
			  (check "the wavevector is the origin plus k along the direction" (veq? (cadr (car s)) (vector3+ korig (vector3-scale k dir1)))))))
		  (check= "the fields are kept from run to run and the parity is used" (log-filter '(init) l) (list (list 'init 2 #f)))
		  (check= "the value is the frequency minus the target, with its own group velocity" r (cons (- (fq %solves b) omega) (vq %solves b)))
		  (set! calls (cons (list %solves k b) calls))))))))
    (set! cur-b (- cur-b 1))
    (let ((res (sym (num-name "root" b)))) (set! results (cons res results)) res)))
(define (main lo hi n mode)
  (set-lattice! (vector 1 0 0) (vector 0 2 0) (vector 0 0 1))
  (set! bmin lo) (set! bmax hi) (set! nq n) (set! cur-b hi)
  (set! omega (sym "omega"))
  (set! freq-of fq)
  (set! korig (if (= mode 1) (vector 1/3 1/5 0) (vector 0 0 0)))
  (let* ((kdir (if (= mode 2) (vector 3 8 0) (vector 0 2 0)))   ; reciprocal basis: (3,4) and (0,1) in cartesian
	 (seen '()) (ks0 (list (vector 1/2 0 0))) (nb0 9))
    (set! dir1 (if (= mode 2) (vector 3/5 8/5 0) (vector 0 2 0)))
    (set! num-bands nb0) (set! k-points ks0)
    (set! guess-list (if (= mode 1) (map (lambda (b) (sym (num-name "guess" b))) (upto lo hi)) (map (lambda (b) 1/7) (upto lo hi))))
    (let* ((funs (if (= mode 0) '() (list (lambda (b) (set! seen (cons (list 'band b num-bands (car k-points)) seen))) (lambda () (set! seen (cons (list 'thunk 0 num-bands (car k-points)) seen))))))
	   (ks (apply find-k (append (list 2 omega lo hi (if (= mode 1) (cons korig kdir) kdir) 1/1000 (if (= mode 1) guess-list 1/7) 0 2) funs))))
      (check= "one wavevector for each band, lowest band first" ks results)
      (check "the number of bands is restored" (= num-bands nb0))
      (check= "the k-points are restored" k-points ks0)
      (let ((out (canon (captured))))
	(let ((nums (list-transform-positive out (lambda (x) (not (string? x)))))) 
	  (check= "the wavevectors are reported last, in the order of the bands" (list-head (reverse nums) (length ks)) (reverse ks))))
      (if (> mode 0)
	  (let ((want (apply append (map (lambda (b) (let ((kk (vector3+ korig (vector3-scale (list-ref results (- b lo)) dir1)))) (list (list 'band b b kk) (list 'thunk 0 b kk)))) (reverse (upto lo hi))))))
	    (check= "band functions are called for each band at its own wavevector" (reverse seen) want)
	    (reached "functions"))))))
