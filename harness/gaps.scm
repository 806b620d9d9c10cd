; band ranges and gaps of a run over nk k-points and nb bands; mode 1: an earlier run precedes
(define (main nb nk mode)
  (define fs (map (lambda (i) (map (lambda (b) (let ((f (sym-real (num-name "f" i b)))) (assume (> f 0)) (assume (< f 100000)) f)) (upto 1 nb))) (upto 1 nk)))
  (define ks (map (lambda (i) (vector (/ i 8) (if (= i 2) 1/4 0) 0)) (upto 1 nk)))
  (define (f i b) (list-ref (list-ref fs (- i 1)) (- b 1)))
  (define base 0)
  (set! num-bands nb)
  (set! k-points ks)
  (if (= mode 1)
      (begin
	(set! freq-of (lambda (c b) (if (= c 1) (/ b 1000) (* b 90000))))
	(set! num-bands (+ nb 1))
	(set! k-points (list (vector 0 0 0) (vector 1/2 1/2 0)))
	(run-parity 0 #t)
	(set! num-bands nb) (set! k-points ks)
	(set! base %solves)))
  (captured)
  (set! freq-of (lambda (c b) (f (- c base) b)))
  (if (= mode 2) (run-parity 2 #f) (run-parity 0 #t))
  (let ((out (captured)) (br band-range-data))
    (check "one range for each band" (= (length br) nb))
    (check= "all frequencies are kept in the order of the k-points" all-freqs fs)
    (for-each
     (lambda (b)
       (let ((mn (caar (list-ref br (- b 1)))) (kmn (cdar (list-ref br (- b 1)))) (mx (cadr (list-ref br (- b 1)))) (kmx (cddr (list-ref br (- b 1)))))
	 (for-each (lambda (i) (check<= "the minimum of a band is below each of its frequencies" mn (f i b)) (check<= "the maximum of a band is above each of its frequencies" (f i b) mx)) (upto 1 nk))
	 (check "the minimum is attained at the reported k-point" (apply or* (map (lambda (i) (and* (= mn (f i b)) (equal? kmn (list-ref ks (- i 1))))) (upto 1 nk))))
	 (check "the maximum is attained at the reported k-point" (apply or* (map (lambda (i) (and* (= mx (f i b)) (equal? kmx (list-ref ks (- i 1))))) (upto 1 nk))))))
     (upto 1 nb))
    ; own computation of the extrema (forks) and of the gaps
    (let* ((mins (map (lambda (b) (apply min (map (lambda (i) (f i b)) (upto 1 nk)))) (upto 1 nb)))
	   (maxs (map (lambda (b) (apply max (map (lambda (i) (f i b)) (upto 1 nk)))) (upto 1 nb)))
	   (gaps (filter pair? (map (lambda (b) (let ((lo (list-ref maxs (- b 1))) (hi (list-ref mins b))) (if (< lo hi) (list b (/ (* 200 (- hi lo)) (+ hi lo)) lo hi) #f))) (upto 1 (- nb 1)))))
	   (txt (canon out)))
      (if (> nk 1)
	  (begin
	    (check "number of gaps" (= (length gap-list) (length gaps)))
	    (check= "gaps: percentage of mid-gap, lower and upper edge" gap-list (map cdr gaps))
	    (if (not (null? gaps)) (reached "gap"))
	    ; the report
	    (let* ((want (canon (append
				 (apply append (map (lambda (b) (let ((r (list-ref br (- b 1)))) (list "Band " b " range: " (caar r) " at " (cdar r) " to " (cadr r) " at " (cddr r) "\n"))) (upto 1 nb)))
				 (apply append (map (lambda (g) (list "Gap from band " (car g) " (" (caddr g) ") to band " (+ 1 (car g)) " (" (cadddr g) "), " (cadr g) "%\n")) gaps)))))
		   (wnum (list-transform-positive want (lambda (x) (not (string? x)))))
		   (onum (list-transform-positive txt (lambda (x) (not (string? x))))))
	      (check= "the printed ranges and gaps are those of the data" onum wnum)
	      (captured)
	      (output-band-range-data br)
	      (check= "the same gaps are found again from the same ranges" (output-gaps br) gap-list)
	      (check= "the printed report names bands, k-points, edges and sizes" (canon (captured)) want)))
	  (check "no gaps are reported for a single k-point" (null? gap-list)))
      (for-each (lambda (b) (let ((lo (list-ref maxs (- b 1))) (hi (list-ref mins b)))
			      (check= "retrieve-gap gives the signed gap in percent of mid-gap" (retrieve-gap b) (/ (* 200 (- hi lo)) (+ hi lo)))))
		(upto 1 (- nb 1)))
      (check "asking for the gap above the last band is an error" (eq? 'err (catch #t (lambda () (retrieve-gap nb)) (lambda a 'err)))))))
