; band functions of the user interface: which field, component and file they act on
(define %cur '())        ; what the current field is, as a description
(define (get-hfield b) (log! 'get-hfield b) (set! %cur (list 'h b)))
(define (get-bfield b) (log! 'get-bfield b) (set! %cur (list 'b b)))
(define (get-dfield b) (log! 'get-dfield b) (set! %cur (list 'd b)))
(define (get-efield-from-dfield) (check "E is made from the D field just loaded" (and (pair? %cur) (eq? (car %cur) 'd))) (set! %cur (list 'e (cadr %cur))))
(define (compute-field-energy) (set! %cur (list 'energy %cur)) (list 1))
(define (compute-field-divergence) (set! %cur (list 'div %cur)))
(define (fix-field-phase) (set! %cur (list 'phase %cur)) (log! 'phase %cur))
(define (output-field-to-file c p) (log! 'output %cur c p))
; field objects: value at one arbitrary point
(define (value-of f) (if (eq? f 'cur-field) (cdr (assoc %cur %vals-at)) (vector-ref f 1)))
(define %vals-at '())
(define (field-make f) (vector (if (eq? f 'cur-field) %cur 'made) 0))
(define (rscalar-field-make f) (vector 'rscalar 0))
(define (field-set! a b) (if (eq? a 'cur-field) (error "not used") (begin (vector-set! a 0 (if (eq? b 'cur-field) %cur (vector-ref b 0))) (vector-set! a 1 (value-of b)))))
(define %mapped #f)
(define (field-mapL! dest f srcs)
  (let ((v (apply f (map value-of srcs))))
    (if (eq? dest 'cur-field) (begin (set! %cur (list 'mapped v)) (set! %vals-at (cons (cons %cur v) %vals-at)))
	(begin (vector-set! dest 1 v)))))
(define (cvector-field-nonbloch! f) (if (eq? f 'cur-field) (set! %cur (list 'nonbloch %cur)) (error "nonbloch of a copy")))
(define (field-load f) (set! %cur (list 'loaded (vector-ref f 1))))
(define (compute-energy-in-object-list l) (log! 'objects %cur l) %energy)
(define %energy 0)
(define %per-band '())
(define (compute-zparities) (map (lambda (l) (car l)) %per-band))
(define (compute-yparities) (map (lambda (l) (cadr l)) %per-band))
(define (compute-group-velocity-component d)   ; d in the reciprocal basis; velocity given in cartesian coordinates
  (let ((c (reciprocal->cartesian d))) (map (lambda (l) (vector3-dot c (caddr l))) %per-band)))
(define (cplx n) (make-rectangular (sym-real (string-append n ".re")) (sym-real (string-append n ".im"))))
(define (outs) (log-filter '(output) (get-log)))
(define (main mode sel)
  (let ((b (sym-int "band" 1 40)))
    (set! filename-prefix (if (= sel 1) "run-" ""))
    (let ((pre (if (= sel 1) "run-" "")))
      (case mode
	((0)
	 (for-each
	  (lambda (e)
	    (let ((f (car e)) (what (cadr e)) (c (caddr e)) (suf (cadddr e)))
	      (set! %cur 'stale) (get-log)
	      (f b)
	      (check= "the requested band's field, the requested component, one file" (outs) (list (list 'output what c (string-append pre suf))))))
	  (list
	   (list output-hfield (list 'h b) -1 "") (list output-hfield-x (list 'h b) 0 "") (list output-hfield-y (list 'h b) 1 "") (list output-hfield-z (list 'h b) 2 "")
	   (list output-bfield (list 'b b) -1 "") (list output-bfield-x (list 'b b) 0 "") (list output-bfield-y (list 'b b) 1 "") (list output-bfield-z (list 'b b) 2 "")
	   (list output-dfield (list 'd b) -1 "") (list output-dfield-x (list 'd b) 0 "") (list output-dfield-y (list 'd b) 1 "") (list output-dfield-z (list 'd b) 2 "")
	   (list output-efield (list 'e b) -1 "") (list output-efield-x (list 'e b) 0 "") (list output-efield-y (list 'e b) 1 "") (list output-efield-z (list 'e b) 2 "")
	   (list output-bpwr (list 'energy (list 'b b)) -1 "") (list output-hpwr (list 'energy (list 'b b)) -1 "") (list output-dpwr (list 'energy (list 'd b)) -1 "")
	   (list output-charge-density (list 'div (list 'e b)) -1 "")))
	 (for-each
	  (lambda (e)
	    (set! %cur 'stale) (get-log)
	    ((car e) b)
	    (check= "the phase is fixed from the requested field" (log-filter '(phase) (get-log)) (list (list 'phase (list 'phase (list (cadr e) b))))))
	  (list (list fix-hfield-phase 'h) (list fix-bfield-phase 'b) (list fix-dfield-phase 'd) (list fix-efield-phase 'e)))
	 (set! %cur '(anything)) (get-log)
	 (output-field) (output-field-x) (output-field-y) (output-field-z)
	 (check= "the current field is written, whole or by component" (map (lambda (l) (list (cadr l) (caddr l) (cadddr l))) (outs)) (map (lambda (c) (list '(anything) c pre)) '(-1 0 1 2))))
	((1)   ; Poynting vector and total energy
	 (let* ((e (vector (cplx "ex") (cplx "ey") (cplx "ez"))) (h (vector (cplx "hx") (cplx "hy") (cplx "hz")))
		(s (vector3-cross (vector3-conj e) h)))
	   (for-each
	    (lambda (f c)
	      (set! %cur 'stale) (get-log)
	      (set! %vals-at (list (cons (list 'e b) e) (cons (list 'h b) h)))
	      (f b)
	      (let ((o (car (outs))))
		(check= "the flux files" (list (caddr o) (cadddr o)) (list c (string-append pre "flux.")))
		(check "the flux is periodic, not a Bloch field" (eq? (car (cadr o)) 'nonbloch))
		(check= "the flux is the cross product of the conjugated electric with the magnetic field" (cadr (cadr (cadr o)))
			(vector (- (* (conj (vector-ref e 1)) (vector-ref h 2)) (* (conj (vector-ref e 2)) (vector-ref h 1)))
				(- (* (conj (vector-ref e 2)) (vector-ref h 0)) (* (conj (vector-ref e 0)) (vector-ref h 2)))
				(- (* (conj (vector-ref e 0)) (vector-ref h 1)) (* (conj (vector-ref e 1)) (vector-ref h 0)))))))
	    (list output-poynting output-poynting-x output-poynting-y output-poynting-z) '(-1 0 1 2))
	   (let ((d2 (sym-real "d2")) (b2 (sym-real "b2")))
	     (set! %cur 'stale) (get-log)
	     (set! %vals-at (list (cons (list 'energy (list 'd b)) d2) (cons (list 'energy (list 'b b)) b2)))
	     (output-tot-pwr b)
	     (check= "total energy is the sum of electric and magnetic energy" (outs) (list (list 'output (list 'loaded (+ d2 b2)) -1 (string-append pre "tot.")))))))
	((2)   ; selection by energy, by k-point, combination
	 (let* ((t (sym-real "threshold")) (seen '()) (f (lambda (w) (set! seen (cons w seen)))) (th (lambda () (set! seen (cons 'thunk seen)))) (fr (map (lambda (i) (/ i 7)) (upto 1 40))))
	   (set! %energy (sym-real "energy")) (set! freqs fr)
	   (let ((bb (pick-int "pband" 1 4)))
	     ((output-dpwr-in-objects f t 'o1 'o2) bb)
	     (check "the function is called exactly for bands with at least the given energy in the objects" (if (>= %energy t) (equal? seen (list bb)) (null? seen)))
	     (check= "energies of the given objects in the requested band" (log-filter '(objects) (get-log)) (list (list 'objects (list 'energy (list 'd bb)) '(o1 o2))))
	     (check= "the energy is reported" (list-transform-positive (canon (captured)) (lambda (x) (not (string? x)))) (append (if (integral? (/ bb 7)) '() (list (/ bb 7))) (list %energy)))
	     (set! seen '())
	     ((combine-band-functions f th f) bb)
	     (check= "combined functions: all of them in order, those without argument once per k-point" (reverse seen) (if (= bb 1) (list 1 'thunk 1) (list bb bb)))
	     (set! seen '())
	     (let ((kx (sym-real "kx")) (ky (sym-real "ky")))
	       (set! current-k (vector kx ky 1/4))
	       ((output-at-kpoint (vector 1/2 0 1/4) f th) bb)
	       (let* ((tol (/ 1 10000000)) (far (or* (> kx (+ 1/2 tol)) (< kx (- 1/2 tol)) (> ky tol) (< ky (- tol)))) (same (and* (= kx 1/2) (= ky 0))) (called (not (null? seen))))
		 (if called (begin (check "called only at the given k-point" (not far)) (check= "with the band" (reverse seen) (if (= bb 1) (list 1 'thunk) (list bb))))
		     (check "always called at the given k-point" (not same))))))))
	((3)   ; per-band reports
	 (set-lattice! (vector 1 0 0) (vector 1/2 2 0) (vector 0 1/3 3/2))
	 (set! parity "te") (set! %kindex 5)
	 (set! %per-band (map (lambda (i) (list (sym-real (num-name "zp" i)) (sym-real (num-name "yp" i)) (vector (sym-real (num-name "vx" i)) (sym-real (num-name "vy" i)) (sym-real (num-name "vz" i))))) (upto 1 3)))
	 (captured)
	 (display-zparities)
	 (check= "z parities of all bands" (canon (captured)) (let ((z (compute-zparities))) (list "tezparity:, 5, " (car z) ", " (cadr z) ", " (caddr z) "\n")))
	 (display-yparities)
	 (check= "y parities of all bands" (canon (captured)) (let ((z (compute-yparities))) (list "teyparity:, 5, " (car z) ", " (cadr z) ", " (caddr z) "\n")))
	 (check= "cartesian group velocities of all bands" (compute-group-velocities) (map caddr %per-band))
	 (display-group-velocities)
	 (check= "group velocities are reported" (canon (captured)) (list "tevelocity:, 5, " (caddr (car %per-band)) ", " (caddr (cadr %per-band)) ", " (caddr (caddr %per-band)) "\n")))
	((4)   ; phase consistency between two sets of eigenvectors
	 (let* ((dots (map (lambda (i) (cplx (num-name "dot" i))) (upto 0 1))) (done '()))
	   (set! dot-eigenvectors (lambda (old first) (check "against the given states" (and (eq? old 'old) (= first 3))) 'm))
	   (set! sqmatrix-size (lambda (m) 2))
	   (set! sqmatrix-ref (lambda (m i j) (check "diagonal products" (= i j)) (list-ref dots i)))
	   (set! scale-eigenvector (lambda (i z) (set! done (cons (cons i z) done))))
	   (for-each (lambda (d) (assume (or* (< 0 (real-part d)) (< (real-part d) 0) (< 0 (imag-part d)) (< (imag-part d) 0)))) dots)
	   (let ((r (fix-phase-consistency 'old 3)))
	     (check= "each state is scaled once" (map car (reverse done)) '(3 4))
	     (for-each (lambda (d s ret)
			 (let* ((z (cdr s)) (p (* z d)))
			   (check= "phases have magnitude one" (+ (* (real-part z) (real-part z)) (* (imag-part z) (imag-part z))) 1)
			   (check= "after scaling the product with the old state is real" (imag-part p) 0)
			   (check "and positive" (< 0 (real-part p)))
			   (check= "the inverse phase is returned" ret (conj z))))
		       dots (reverse done) r))))
	((5)   ; grid sizes
	 (let* ((n (pick-int "n" (+ 1 (* sel 40)) (+ 40 (* sel 40)))) (m (next-factor2357 n)))
	   (define (smooth? x) (= 1 (let loop ((x x) (p '(2 3 5 7))) (cond ((null? p) x) ((zero? (remainder x (car p))) (loop (quotient x (car p)) p)) (else (loop x (cdr p)))))))
	   (check "not smaller" (>= m n))
	   (check "only factors 2, 3, 5 and 7" (smooth? m))
	   (do ((i n (+ i 1))) ((= i m)) (check "the smallest such number" (not (smooth? i))))))))
    (reached (num-name "mode" mode))))
(define dot-eigenvectors #f) (define sqmatrix-size #f) (define sqmatrix-ref #f) (define scale-eigenvector #f)
