From 9f6c7a415c00cf79735ebf70d503d99c5947b46d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:55 +0000
Subject: [PATCH 01/48] fix: delays beyond the data length read out of bounds
 in regular and fft kernels

Requesting n larger than the number of frames made the regular-spaced direct
kernels index before the start / past the end of the data (wrong values or a
crash) and made the fft kernels raise or count wrapped-around delays. Such delays do not occur, so their
sums stay zero, as with irregular-spaced data.
---
 cddm/_core_nb.py | 48 +++++++++++++++++++++++++++---------------------
 1 file changed, 27 insertions(+), 21 deletions(-)

diff --git a/cddm/_core_nb.py b/cddm/_core_nb.py
index 4cac182..dc9fbc6 100644
--- a/cddm/_core_nb.py
+++ b/cddm/_core_nb.py
@@ -338,7 +338,7 @@ def _cross_corr_complex_add(xv,yv, out):
 
 @nb.guvectorize([(C[:],C[:],F[:],F[:])],"(n),(n),(k)->(k)", target = NUMBA_TARGET, cache = NUMBA_CACHE, fastmath = NUMBA_FASTMATH)
 def _cross_corr_regular(x,y,dummy,out):
-    for i in range(out.shape[0]):
+    for i in range(min(out.shape[0], x.shape[0])):
         n = x.shape[0] - i
         _cross_corr_add(x[0:n],y[i:], out[i:i+1])
         if i > 0:
@@ -346,7 +346,7 @@ def _cross_corr_regular(x,y,dummy,out):
             
 @nb.guvectorize([(C[:],C[:],C[:],C[:])],"(n),(n),(k)->(k)", target = NUMBA_TARGET, cache = NUMBA_CACHE, fastmath = NUMBA_FASTMATH)
 def _cross_corr_complex_regular(x,y,dummy,out):
-    for i in range((out.shape[0]+1)//2):
+    for i in range(min((out.shape[0]+1)//2, x.shape[0])):
         n = x.shape[0] - i
         _cross_corr_complex_add(x[0:n],y[i:], out[i:i+1])
         if i > 0:
@@ -355,13 +355,13 @@ def _cross_corr_complex_regular(x,y,dummy,out):
 
 @nb.guvectorize([(C[:],F[:],F[:])],"(n),(k)->(k)", target = NUMBA_TARGET, cache = NUMBA_CACHE, fastmath = NUMBA_FASTMATH)
 def _auto_corr_regular(x,dummy,out):
-    for i in range(out.shape[0]):
+    for i in range(min(out.shape[0], x.shape[0])):
         n = x.shape[0] - i
         _cross_corr_add(x[i:],x[0:n], out[i:i+1])
 
 @nb.guvectorize([(C[:],C[:],C[:])],"(n),(k)->(k)", target = NUMBA_TARGET, cache = NUMBA_CACHE, fastmath = NUMBA_FASTMATH)
 def _auto_corr_complex_regular(x,dummy,out):
-    for i in range(out.shape[0]):
+    for i in range(min(out.shape[0], x.shape[0])):
         n = x.shape[0] - i
         _cross_corr_complex_add(x[0:n],x[i:], out[i:i+1])
 
@@ -452,7 +452,7 @@ def _cross_diff_add(xv,yv, out):
 
 @nb.guvectorize([(C[:],C[:],F[:],F[:])],"(n),(n),(k)->(k)", target = NUMBA_TARGET, cache = NUMBA_CACHE, fastmath = NUMBA_FASTMATH)
 def _cross_diff_regular(x,y,dummy,out):
-    for i in range(out.shape[0]):
+    for i in range(min(out.shape[0], x.shape[0])):
         n = x.shape[0] - i
         _cross_diff_add(y[i:],x[0:n], out[i:i+1])
         if i > 0:
@@ -469,7 +469,7 @@ def _auto_diff_vec(f,t,dummy,out):
             
 @nb.guvectorize([(C[:],F[:],F[:])],"(n),(k)->(k)", target = NUMBA_TARGET, cache = NUMBA_CACHE, fastmath = NUMBA_FASTMATH)
 def _auto_diff_regular(x,dummy,out):
-    for i in range(out.shape[0]):
+    for i in range(min(out.shape[0], x.shape[0])):
         n = x.shape[0] - i
         _cross_diff_add(x[i:],x[0:n], out[i:i+1])
             
@@ -518,7 +518,7 @@ def _cross_sum_complex(f,t1,t2,dummy,out):
                                 
 @nb.guvectorize([(C[:],C[:],C[:]), (F[:],F[:],F[:])],"(n),(k)->(k)", target = NUMBA_TARGET, cache = NUMBA_CACHE, fastmath = NUMBA_FASTMATH)
 def _cross_sum_regular(x,dummy,out):
-    for i in range(out.shape[0]):
+    for i in range(min(out.shape[0], x.shape[0])):
         n = x.shape[0] - i
         if i == 0:
             tmp = out[0]
@@ -533,7 +533,7 @@ def _cross_sum_regular(x,dummy,out):
             
 @nb.guvectorize([(C[:],C[:],C[:]), (F[:],F[:],F[:])],"(n),(k)->(k)", target = NUMBA_TARGET, cache = NUMBA_CACHE, fastmath = NUMBA_FASTMATH)
 def _cross_sum_complex_regular_inverted(x,dummy,out):
-    for i in range((out.shape[0]+1)//2):
+    for i in range(min((out.shape[0]+1)//2, x.shape[0])):
         n = x.shape[0] - i
         if i == 0:
             tmp = out[0]
@@ -551,7 +551,7 @@ def _cross_sum_complex_regular_inverted(x,dummy,out):
 
 @nb.guvectorize([(C[:],C[:],C[:]), (F[:],F[:],F[:])],"(n),(k)->(k)", target = NUMBA_TARGET, cache = NUMBA_CACHE, fastmath = NUMBA_FASTMATH)
 def _cross_sum_complex_regular(x,dummy,out):
-    for i in range((out.shape[0]+1)//2):
+    for i in range(min((out.shape[0]+1)//2, x.shape[0])):
         n = x.shape[0] - i
         if i == 0:
             tmp = out[0]
@@ -574,6 +574,7 @@ def _cross_corr_fft_regular(x, y, dummy, out):
     if np.iscomplexobj(out):
         out_length = (out_length+1)//2
     length = len(x)
+    out_length = min(out_length, length) #there are no delays larger than length - 1
     tmp1 = np.empty((length*2), x.dtype)
     tmp1[0:length] = x
     tmp1[length:] = 0.
@@ -590,13 +591,14 @@ def _cross_corr_fft_regular(x, y, dummy, out):
         out[:out_length] += _out[:out_length]
         out[-1:-out_length:-1] += _out[-1:-out_length:-1]        
     else:
-        out[:] += _out[:out_length].real
-        out[1:] += _out[-1:-out_length:-1].real
+        out[:out_length] += _out[:out_length].real
+        out[1:out_length] += _out[-1:-out_length:-1].real
     
 @nb.guvectorize([(C[:],F[:],F[:]),(C[:],C[:],C[:])],"(n),(k)->(k)", forceobj=True, cache = NUMBA_CACHE, fastmath = NUMBA_FASTMATH)
 def _auto_corr_fft_regular(x, dummy, out):
     out_length = len(dummy)
     length = len(x)
+    out_length = min(out_length, length) #there are no delays larger than length - 1
     tmp = np.empty((length*2), x.dtype)
     tmp[0:length] = x
     tmp[length:] = 0.
@@ -607,9 +609,9 @@ def _auto_corr_fft_regular(x, dummy, out):
     _out = _ifft(x, overwrite_x = True)
     
     if np.iscomplexobj(out):
-        out[:] += _out[:out_length]
+        out[:out_length] += _out[:out_length]
     else:
-        out[:] += _out[:out_length].real
+        out[:out_length] += _out[:out_length].real
     
 
 @nb.jit([(C[:],I64[:],C[:]),(F[:],I64[:],C[:])], nopython = True, cache = NUMBA_CACHE, fastmath = NUMBA_FASTMATH)
@@ -633,6 +635,7 @@ def _cross_corr_fft(x, y, t1,t2,length, dummy, out):
         out_length = (out_length+1)//2
     
     tmp1 = np.zeros((length*2), x.dtype)
+    out_length = min(out_length, len(tmp1)//2) #there are no delays larger than length - 1
     _fill_data(x,t1, tmp1)
     #tmp1[list(t1)] = x
     tmp2 = np.zeros((length*2), y.dtype)
@@ -647,14 +650,15 @@ def _cross_corr_fft(x, y, t1,t2,length, dummy, out):
         out[:out_length] += _out[:out_length]
         out[-1:-out_length:-1] += _out[-1:-out_length:-1]       
     else:
-        out[:] += _out[:out_length].real
-        out[1:] += _out[-1:-out_length:-1].real
+        out[:out_length] += _out[:out_length].real
+        out[1:out_length] += _out[-1:-out_length:-1].real
         
 @nb.guvectorize([(C[:],I64[:],I64[:],F[:],F[:]),(C[:],I64[:],I64[:],C[:],C[:])],"(n),(n),(),(k)->(k)", forceobj=True, cache = NUMBA_CACHE, fastmath = NUMBA_FASTMATH)
 def _auto_corr_fft(x, t,length, dummy, out):
     out_length = len(dummy)
     
     tmp = np.zeros((length*2), x.dtype)
+    out_length = min(out_length, len(tmp)//2) #there are no delays larger than length - 1
     _fill_data(x,t, tmp)
     #tmp[list(t)] = x
     x = _fft(tmp, overwrite_x = True)
@@ -662,24 +666,25 @@ def _auto_corr_fft(x, t,length, dummy, out):
     np.multiply(x,y, out = x)
     _out = _ifft(x, overwrite_x = True)
     if np.iscomplexobj(out):
-        out[:] += _out[:out_length]
+        out[:out_length] += _out[:out_length]
     else:
-        out[:] += _out[:out_length].real
+        out[:out_length] += _out[:out_length].real
     
 @nb.guvectorize([(C[:],C[:],I64[:],I64[:],F[:],F[:]), (C[:],C[:],I64[:],I64[:],C[:],C[:])],"(n),(m),(n),(),(k)->(k)", forceobj=True, cache = NUMBA_CACHE, fastmath = NUMBA_FASTMATH)
 def _cross_sum_fft(x, y,t,length, dummy, out):
     out_length = len(dummy)
     tmp1 = np.zeros((length*2), x.dtype)
+    out_length = min(out_length, len(tmp1)//2) #there are no delays larger than length - 1
     _fill_data(x,t, tmp1)
     x = _fft(tmp1, overwrite_x = True)
     np.multiply(np.conj(x),y, out = x)
     _out = _ifft(x, overwrite_x = True)
     if np.iscomplexobj(out):
-        out[:] += np.conj(_out[:out_length])
-        out[1:] += np.conj(_out[-1:-out_length:-1])
+        out[:out_length] += np.conj(_out[:out_length])
+        out[1:out_length] += np.conj(_out[-1:-out_length:-1])
     else:
-        out[:] += _out[:out_length].real
-        out[1:] += _out[-1:-out_length:-1].real
+        out[:out_length] += _out[:out_length].real
+        out[1:out_length] += _out[-1:-out_length:-1].real
         
     
 @nb.guvectorize([(C[:],C[:],I64[:],I64[:],F[:],F[:]),(C[:],C[:],I64[:],I64[:],C[:],C[:])],"(n),(m),(n),(),(k)->(k)", forceobj=True, cache = NUMBA_CACHE, fastmath = NUMBA_FASTMATH)
@@ -687,6 +692,7 @@ def _cross_sum_complex_fft(x, y,t,length, dummy, out):
     out_length = len(dummy)
     out_length = (out_length+1)//2
     tmp1 = np.zeros((length*2), x.dtype)
+    out_length = min(out_length, len(tmp1)//2) #there are no delays larger than length - 1
     _fill_data(x,t, tmp1)
     x = _fft(tmp1, overwrite_x = True)
     np.multiply(np.conj(x),y, out = x)
-- 
2.43.0


From fd181559951f19ffed66453ab91001c1a2c4b87f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:22 +0000
Subject: [PATCH 02/48] fix: thread_divisor, mask and 1D frames gave misplaced
 data or failed when reshaping frames

---
 cddm/core.py     | 28 ++++++++++++++++++++--------
 cddm/multitau.py |  6 ++++++
 2 files changed, 26 insertions(+), 8 deletions(-)

diff --git a/cddm/core.py b/cddm/core.py
index b31a43d..38bd67b 100644
--- a/cddm/core.py
+++ b/cddm/core.py
@@ -317,9 +317,14 @@ def reshape_input(f, axis = 0, thread_divisor = None, mask = None):
     shape = list(f.shape)
     n = shape.pop(axis)
     force_2d = True if mask is None else False
-    new_shape = list(thread_frame_shape(shape, thread_divisor, force_2d))
-    new_shape.insert(axis, n)
-    return f.reshape(new_shape), tuple(shape)
+    new_shape = tuple(thread_frame_shape(shape, thread_divisor, force_2d))
+    if axis == f.ndim - 1:
+        #computation axis is last, and it stays last
+        f = f.reshape(new_shape + (n,))
+    else:
+        f = np.moveaxis(f, axis, 0).reshape((n,) + new_shape)
+        f = np.moveaxis(f, 0, min(axis, f.ndim - 1))
+    return f, tuple(shape)
 
 def reshape_frame(frame, shape, mask = None): 
     x = frame.reshape(shape)
@@ -364,7 +369,7 @@ def reshape_output(data, shape = None, mask = None):
         if i != 1 and x is not None: 
             x = x.reshape(shape)
             if mask is not None:
-                out = np.empty(x.shape[0:-mask.ndim] + mask.shape + (x.shape[-1],), x.dtype)
+                out = np.empty(x.shape[0:-2] + mask.shape + (x.shape[-1],), x.dtype)
                 out[...,mask,:] = x
                 out[...,np.logical_not(mask),:] = np.nan
                 return out
@@ -375,11 +380,18 @@ def reshape_output(data, shape = None, mask = None):
     if shape is None:
         if mask is None:
             raise ValueError("Either `mask` or `shape` must be defined")
-        shape = mask.shape
-    if mask is None:
-        shape = data[0].shape[0:-(len(shape)+1)] + tuple(shape) + (data[0].shape[-1],) 
+        shape = (np.count_nonzero(mask),)
+    shape = tuple(shape)
+    if isinstance(data, np.ndarray):
+        if data.shape[-len(shape)-1:-1] == shape and (len(shape) != 1 or mask is not None):
+            #frame shape was not changed
+            shape = data.shape[0:-len(shape)-1] + shape + data.shape[-1:]
+        else:
+            #frame was reshaped to 2D
+            shape = data.shape[0:-3] + shape + data.shape[-1:]
     else:
-        shape = data[0].shape[0:-mask.ndim] + tuple(shape) + (data[0].shape[-1],) 
+        #count data tells whether this is multilevel data or not
+        shape = data[1].shape[0:-1] + shape + data[0].shape[-1:]
     #normalized data 
     if isinstance(data, np.ndarray):
         return _reshape(0,data) 
diff --git a/cddm/multitau.py b/cddm/multitau.py
index ccdb347..563f3f6 100644
--- a/cddm/multitau.py
+++ b/cddm/multitau.py
@@ -177,11 +177,17 @@ def _compute_multi(f1,f2 = None, t1 = None, t2 = None, axis = 0, period = 1, lev
     else:
         f1,t1,axis,level_size = _inspect_auto_arguments(f1,t1,axis,level_size, None)
     
+    axis = list(range(f1.ndim))[axis] #make it a positive integer
+    is_last = axis > 0 and axis == f1.ndim - 1
+    
     #reshape input data for faster threaded execution.
     f1, kshape = reshape_input(f1, axis = axis, thread_divisor = thread_divisor, mask = mask)
     if cross:
         f2, kshape = reshape_input(f2, axis = axis, thread_divisor = thread_divisor, mask = mask)
 
+    #number of dimensions could have changed
+    axis = f1.ndim - 1 if is_last else min(axis, f1.ndim - 1)
+
     new_axis = -2 if f1.ndim > 1 else -1    
 
     if t1 is None and t2 is None:
-- 
2.43.0


From 52fe5209f84db6626cc864ab1271c73d57098958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:29 +0000
Subject: [PATCH 03/48] fix: complex auto-correlation of a stream lost the
 contribution of neighbouring chunks

---
 cddm/multitau.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cddm/multitau.py b/cddm/multitau.py
index 563f3f6..7735d42 100644
--- a/cddm/multitau.py
+++ b/cddm/multitau.py
@@ -936,7 +936,8 @@ def _compute_multi_iter(data, t1, t2 = None, period = 1, level_size = 16,
                     #     m1_fast += out[3] /2
                     #     m1_fast += out[4] /2          
                         
-                    out = ccorr(_sliced_data(fdata1,0,fstart1,fstop1),_sliced_data(fdata1,0,fstart2,fstop2),t1[istart1:istop1],t1[istart2:istop2],f1s = f1s, f2s = f2s,  axis = axis, n = n_fast,norm = norm, method = method, complex = complex)
+                    #earlier data goes first, so that delays are positive
+                    out = ccorr(_sliced_data(fdata1,0,fstart2,fstop2),_sliced_data(fdata1,0,fstart1,fstop1),t1[istart2:istop2],t1[istart1:istop1],f1s = f2s, f2s = f1s,  axis = axis, n = n_fast,norm = norm, method = method, complex = complex)
                         
                     out_fast += out[0][...,0:n_fast]
                     count_fast += out[1][...,0:n_fast]
@@ -1010,7 +1011,8 @@ def _compute_multi_iter(data, t1, t2 = None, period = 1, level_size = 16,
                             #     m1_slow[j-1] += out[3] /2
                             #     m1_slow[j-1] += out[4] /2
                             
-                            out = ccorr(_sliced_data(fdata1,j,fstart1,fstop1),_sliced_data(fdata1,j,fstart2,fstop2),t_slow[istart1:istop1],t_slow[istart2:istop2],f1s = f1s, f2s = f2s,  axis = axis, n = n_fast,norm = norm, method = method, complex = complex)
+                            #earlier data goes first, so that delays are positive
+                            out = ccorr(_sliced_data(fdata1,j,fstart2,fstop2),_sliced_data(fdata1,j,fstart1,fstop1),t_slow[istart2:istop2],t_slow[istart1:istop1],f1s = f2s, f2s = f1s,  axis = axis, n = n_fast,norm = norm, method = method, complex = complex)
 
 
                             out_slow[j-1] += out[0][...,0:n_slow]
-- 
2.43.0


From 20ecf24531e58c68ef2f885ea9b8907f7843526a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:45 +0000
Subject: [PATCH 04/48] fix: complex multiple-tau calculation allocated slow
 data and count of wrong size

---
 cddm/multitau.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/cddm/multitau.py b/cddm/multitau.py
index 7735d42..259a52a 100644
--- a/cddm/multitau.py
+++ b/cddm/multitau.py
@@ -235,19 +235,20 @@ def _compute_multi(f1,f2 = None, t1 = None, t2 = None, axis = 0, period = 1, lev
 
     k_shape = data_fast[0].shape[0:-1]
     
+    #complex-valued cross-correlation needs both positive and negative delays
+    n_out = _full_size(n_slow) if complex and cross else n_slow
+    
     if axis == -1:
         new_axis = -1
-        slow_shape = (nlevel,) + k_shape + (n_slow,)
-        slow_shape = (nlevel,) + k_shape + (n_slow*2+1,) if complex else slow_shape
+        slow_shape = (nlevel,) + k_shape + (n_out,)
     else:
         new_axis = axis
-        slow_shape = (nlevel,) + k_shape[0:-1] + (n_slow,) + k_shape[-1:] 
-        slow_shape = (nlevel,) + k_shape[0:-1] + (n_slow*2+1,) + k_shape[-1:] if complex else slow_shape
+        slow_shape = (nlevel,) + k_shape[0:-1] + (n_out,) + k_shape[-1:] 
 
     out_slow = np.zeros(slow_shape, CDTYPE) if complex else np.zeros(slow_shape, FDTYPE) 
     out_slow = _transpose_data(out_slow, new_axis) 
         
-    count_slow = np.zeros((nlevel, n_slow,),IDTYPE)
+    count_slow = np.zeros((nlevel, n_out,),IDTYPE)
     m1, m2, sq = None, None, None
  
     if (norm & NORM_STRUCTURED) and correlate == True:
-- 
2.43.0


From 65c5090370d88d22c63550b40668521d2595fd4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:36 +0000
Subject: [PATCH 05/48] fix: random-selection binning mixed different frames in
 one multiple-tau level

---
 cddm/multitau.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/cddm/multitau.py b/cddm/multitau.py
index 259a52a..0520ea5 100644
--- a/cddm/multitau.py
+++ b/cddm/multitau.py
@@ -278,11 +278,13 @@ def _compute_multi(f1,f2 = None, t1 = None, t2 = None, axis = 0, period = 1, lev
     #do multi-tau caluclation
 
     for i in range(nlevel):
-        f1 = _bin(f1,axis, new_axis)
-        f2 = _bin(f2,axis, new_axis) if cross else None
+        #in case of random selection, the same frames must be selected for all data
+        r = np.random.rand() if binning == BINNING_CHOOSE else None
+        f1 = _bin(f1,axis, new_axis, r = r)
+        f2 = _bin(f2,axis, new_axis, r = r) if cross else None
         if (norm & NORM_STRUCTURED) and correlate:
-            f1s = _bin(f1s,axis, new_axis)
-            f2s = _bin(f2s,axis, new_axis) if cross else None
+            f1s = _bin(f1s,axis, new_axis, r = r)
+            f2s = _bin(f2s,axis, new_axis, r = r) if cross else None
         axis = new_axis
                 
         _out =  tuple(((d[i] if d is not None else None) for d in data_slow))
-- 
2.43.0


From 008f954d06cc21a258f36159dc314d084a5ef803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:08 +0000
Subject: [PATCH 06/48] fix: difference-mode auto-correlation of a stream
 failed on the second chunk

---
 cddm/multitau.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cddm/multitau.py b/cddm/multitau.py
index 0520ea5..a9ba3eb 100644
--- a/cddm/multitau.py
+++ b/cddm/multitau.py
@@ -817,6 +817,7 @@ def _compute_multi_iter(data, t1, t2 = None, period = 1, level_size = 16,
             else:
                 out_fast, count_fast, m1_fast, m2_fast = data_fast         
                 out_slow, count_slow, m1_slow, m2_slow = data_slow
+                sq_fast, sq_slow = None, None
                 
             fdata1, fdata2 = _init_data_f(n_decades, half_chunk_size, shape, cross = cross)
             
-- 
2.43.0


From f3840c8dba5106cc77197fe7ca18272e85b3cf16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:08 +0000
Subject: [PATCH 07/48] fix: default norm of iacorr was rejected as unsupported

---
 cddm/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cddm/core.py b/cddm/core.py
index 38bd67b..be3db01 100644
--- a/cddm/core.py
+++ b/cddm/core.py
@@ -1404,7 +1404,7 @@ def iccorr(data, t1 = None, t2 = None, n = None, norm = None, method = "corr", c
     else:
         return data
 
-def iacorr(data, t = None, n = None, norm = 0, method = "corr", count = None,
+def iacorr(data, t = None, n = None, norm = None, method = "corr", count = None,
                 chunk_size = None, thread_divisor = None,  
                 auto_background = False,  viewer = None, viewer_interval = 1, mode = "full", mask = None, stats = True, complex = False):
     """Iterative version of :func:`ccorr`
-- 
2.43.0


From 8c5b07a402c8cf0fa7c3f31955c5309c7389a4fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:26 +0000
Subject: [PATCH 08/48] fix: iterative multiple-tau with explicit nlevel left
 the last levels empty

---
 cddm/multitau.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cddm/multitau.py b/cddm/multitau.py
index a9ba3eb..f4a2167 100644
--- a/cddm/multitau.py
+++ b/cddm/multitau.py
@@ -764,9 +764,10 @@ def _compute_multi_iter(data, t1, t2 = None, period = 1, level_size = 16,
     if nlevel is None:
         nlevel = n_decades_max -1
     else:
-        n_decades = min(nlevel + 1, n_decades_max)
-        if n_decades < 1:
+        if min(nlevel + 1, n_decades_max) < 1:
             raise ValueError("Invalid nlevel")
+        #levels that do not fit in chunks are computed at the end
+        n_decades = min(nlevel + 1, n_decades)
         nlevel = min(int(nlevel),n_decades_max -1)
               
     t_slow = np.arange(nframes)
-- 
2.43.0


From 27833fcca0cf0b0bd62f7bee10fd7756450c926c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:09 +0000
Subject: [PATCH 09/48] fix: iterative multiple-tau took the last instead of
 the first frame when no binning is used

---
 cddm/multitau.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/cddm/multitau.py b/cddm/multitau.py
index f4a2167..5cecb0a 100644
--- a/cddm/multitau.py
+++ b/cddm/multitau.py
@@ -442,9 +442,12 @@ def _add_data1(i,x, out, binning = True, r = None):
                     x = x if r > 0.5 else out[j-1,index_top-1,...]
                     out[j,index_low,...] = x                    
             else:
+                #take first element of the pair
                 if OPTIMIZE_LAYOUT:
+                    x = out[j-1,...,index_top-1,:]
                     out[j,...,index_low,:] = x
                 else:
+                    x = out[j-1,index_top-1,...]
                     out[j,index_low,...] = x
             
             index_top = index_low
@@ -493,10 +496,15 @@ def _add_data2(i,x1, x2, out1, out2, binning = True, r = None):
                     out1[j,index_low,...] = x1
                     out2[j,index_low,...] = x2                    
             else:
+                #take first element of the pair
                 if OPTIMIZE_LAYOUT:
+                    x1 = out1[j-1,...,index_top-1,:]
+                    x2 = out2[j-1,...,index_top-1,:]
                     out1[j,...,index_low,:] = x1
                     out2[j,...,index_low,:] = x2
                 else:
+                    x1 = out1[j-1,index_top-1,...]
+                    x2 = out2[j-1,index_top-1,...]
                     out1[j,index_low,...] = x1
                     out2[j,index_low,...] = x2            
             index_top = index_low
-- 
2.43.0


From ee02464e815a35c3f01541211d2a9a08ce10f6c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:45 +0000
Subject: [PATCH 10/48] fix: weighted normalization of unscaled data used noise
 difference in wrong units

---
 cddm/norm.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cddm/norm.py b/cddm/norm.py
index 6363f8e..9c2712b 100755
--- a/cddm/norm.py
+++ b/cddm/norm.py
@@ -573,12 +573,13 @@ def normalize(data, background = None, variance = None, norm = None,  mode = "co
         
         weighted_data = base_data
         
+        #delta is relative to the scale factor, regardless of the scale argument
         if norm & NORM_SUBTRACTED:
-            delta = noise_delta(variance, mask, scale = scale)
+            delta = noise_delta(variance, mask)
         else:
             bg1 = bg1 / (scale_factor(variance,mask))**0.5 if scale == True else bg1
             bg2 = bg2 / (scale_factor(variance,mask))**0.5  if scale == True else bg2
-            delta = noise_delta(variance, mask, scale = scale)
+            delta = noise_delta(variance, mask)
         
         if weight is None:
             weight = weight_from_data(weighted_data, delta, scale_factor = _scale_factor, mode = mode)
-- 
2.43.0


From b9340d2bcf7fd6e965a35808c89a6eadfda918b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:45 +0000
Subject: [PATCH 11/48] fix: weighted normalization ignored the out argument

---
 cddm/norm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cddm/norm.py b/cddm/norm.py
index 9c2712b..8ccc036 100755
--- a/cddm/norm.py
+++ b/cddm/norm.py
@@ -620,9 +620,9 @@ def normalize(data, background = None, variance = None, norm = None,  mode = "co
         enable_prints(level) 
         
         if ret_weight == True:
-            return weighted_sum(comp_data, base_data,weight), weight
+            return weighted_sum(comp_data, base_data,weight, out), weight
         else:
-            return weighted_sum(comp_data, base_data,weight)
+            return weighted_sum(comp_data, base_data,weight, out)
         
     count = data[1]
     
-- 
2.43.0


From 576a781a67ae0ec9deba006383b5df0d4b99217a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:50 +0000
Subject: [PATCH 12/48] fix: noise_delta returned zeros for integer variance
 data

---
 cddm/norm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cddm/norm.py b/cddm/norm.py
index 8ccc036..0fc44f9 100755
--- a/cddm/norm.py
+++ b/cddm/norm.py
@@ -251,7 +251,7 @@ def noise_delta(variance, mask = None, scale = True):
         v1, v2 = variance
         delta = (np.asarray(v2) - np.asarray(v1))
         scale = (np.asarray(v1) + np.asarray(v2)) if scale == True else 2.
-        delta /= scale
+        delta = delta / scale
     except:
         #single data has delta = 0.
         scale = np.asarray(variance) 
-- 
2.43.0


From 1b40cd7ece4ac772d0cd5480a652a4a676237b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:08 +0000
Subject: [PATCH 13/48] fix: multilevel_count misaligned when the averaging
 kernel is longer than the count data

---
 cddm/multitau.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/cddm/multitau.py b/cddm/multitau.py
index 5cecb0a..04e44de 100644
--- a/cddm/multitau.py
+++ b/cddm/multitau.py
@@ -1343,8 +1343,11 @@ def multilevel_count(count, level_size, binning = BINNING_MEAN):
             kernel = np.array([1.]) #np.array([1./2**l])
         kernel2 = kernel**2
         
-        data = np.convolve(kernel2, count2, "same")
-        norm = np.convolve(kernel, count , "same")
+        #the kernel may be longer than count, so take the central part explicitly.
+        start = len(kernel) // 2
+        stop = start + len(count)
+        data = np.convolve(kernel2, count2, "full")[start:stop]
+        norm = np.convolve(kernel, count , "full")[start:stop]
         data_sliced = data[0::2**l][0:size]
         norm_sliced = norm[0::2**l][0:size]
         n_sliced = data_sliced.shape[-1]
-- 
2.43.0


From 39322a434a3311176bec3c334835412232db0b4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:08 +0000
Subject: [PATCH 14/48] fix: log_merge repeated times and returned missing data
 for period not a power of two

---
 cddm/multitau.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cddm/multitau.py b/cddm/multitau.py
index 04e44de..d352841 100644
--- a/cddm/multitau.py
+++ b/cddm/multitau.py
@@ -1629,6 +1629,9 @@ def log_merge(lin,multi, binning = BINNING_MEAN, fold = None):
 
     ldata = multilevel(lin, nslow, binning, fold = False)
     xfast, cfast = merge_multilevel(ldata, mode = "full")
+    #the last level is incomplete if period is not a power of two, skip missing data
+    valid = xfast < lin.shape[-1]
+    xfast, cfast = xfast[valid], cfast[...,valid]
     xslow, cslow = merge_multilevel(multi, mode = "half")
     t = np.concatenate((xfast, 2 * period * xslow), axis = -1)
     cc = np.concatenate((cfast, cslow), axis = -1)
@@ -1659,6 +1662,9 @@ def log_merge_count(lin_count,multi_count, binning = BINNING_MEAN):
 
     ldata = multilevel_count(lin_count, nslow, binning = binning)
     xfast, cfast = merge_multilevel(ldata, mode = "full")
+    #the last level is incomplete if period is not a power of two, skip missing data
+    valid = xfast < lin_count.shape[-1]
+    xfast, cfast = xfast[valid], cfast[...,valid]
     xslow, cslow = merge_multilevel(multi_count, mode = "half")
     t = np.concatenate((xfast, 2 * period * xslow), axis = -1)
     cc = np.concatenate((cfast, cslow), axis = -1)
-- 
2.43.0


From 26e8d3749327f5c009bdb07c14c52f6f4e57caf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:00 +0000
Subject: [PATCH 15/48] fix: increasing filter left the first element
 uninitialised

---
 cddm/_core_nb.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cddm/_core_nb.py b/cddm/_core_nb.py
index dc9fbc6..6cc358f 100644
--- a/cddm/_core_nb.py
+++ b/cddm/_core_nb.py
@@ -223,7 +223,7 @@ def decreasing(array, out):
 def increasing(array,out):
     """Performs increasing filter. Each next element must be greater or equal"""
     n = len(array)
-    for i in range(1,n):
+    for i in range(n):
         if i == 0:
             out[0] = array[0]
         else:
-- 
2.43.0


From 11de92f8b4c029140e5845edda9b37c6e23bdd49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:00 +0000
Subject: [PATCH 16/48] fix: fold_data with mode -1 shifted negative delays by
 one

---
 cddm/norm.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cddm/norm.py b/cddm/norm.py
index 0fc44f9..7d5032e 100755
--- a/cddm/norm.py
+++ b/cddm/norm.py
@@ -857,9 +857,9 @@ def fold_data(data, mode = 0):
             out[...,1:] /= 2
     else:
         #take all negative values and largest positive value
-        out = data[...,-1:-n-1:-1].copy()
-        #first one is zero, so overwrite the largest positive value.
-        out[...,0] = data[...,0]
+        out = data[...,0:n].copy()
+        #out[0] is the zero delay value, the rest are negative values.
+        out[...,1:] = data[...,-1:-n:-1]
         
     return out
 
-- 
2.43.0


From 9935790fe4941a48c70ba591bcc48f7f9f536736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:00 +0000
Subject: [PATCH 17/48] fix: shift_data kept the misalignment phase and removed
 that of the data

---
 cddm/norm.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/cddm/norm.py b/cddm/norm.py
index 7d5032e..9294e0d 100755
--- a/cddm/norm.py
+++ b/cddm/norm.py
@@ -780,10 +780,8 @@ def shift_data(data):
     pos = data[...,1:n]
     neg = np.conj(data[...,-1:-n:-1])
     
-    pos_phase = np.arctan2(pos.imag, pos.real)
-    neg_phase = np.arctan2(neg.imag, neg.real)
-    
-    phase = (pos_phase - neg_phase)/2.
+    #the misalignment phase has opposite sign in pos and neg, so it cancels here.
+    phase = np.angle(pos * neg)/2.
     exp_phase = np.exp(1j*phase)
 
     out[...,1:n] = np.abs(pos) * exp_phase
-- 
2.43.0


From 7925b32ef884e27b05897f72934a90ea75222f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:54 +0000
Subject: [PATCH 18/48] fix: k_select failed for a scalar k

---
 cddm/map.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cddm/map.py b/cddm/map.py
index 6c2ada4..1927bcc 100644
--- a/cddm/map.py
+++ b/cddm/map.py
@@ -668,7 +668,7 @@ def k_select(data, angle , sector = 5, kstep = 1, k = None, shape = None, mask =
         return tuple((data for data in iterator if data is not None))       
     except TypeError:
         #not iterable
-        return _k_select(data, k, indexmap, kmap, mask)
+        return _k_select(data, k, indexmap, kmap, mask, masked_data)
     
 #
 #if __name__ == "__main__":
-- 
2.43.0


From 9cd351573e98824403feadcc58c3b15e0304a194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:54 +0000
Subject: [PATCH 19/48] fix: k_select of rfft2 data failed, the conjugate mask
 was made from the half-space mask; mean k ignored the data mask

---
 cddm/map.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cddm/map.py b/cddm/map.py
index 1927bcc..4c7c653 100644
--- a/cddm/map.py
+++ b/cddm/map.py
@@ -309,14 +309,15 @@ def _k_select_complex(data, k, indexmap, kmap, computed_mask, masked_data):
     
 def _k_select_real(data, k, indexmap, kmap, computed_mask, masked_data):
     mask = (indexmap == int(round(k)))
-    ks = kmap[mask]
-    mask = as_rfft2_mask(mask)
     conj_mask = as_rfft2_conj(mask)
+    mask = as_rfft2_mask(mask)
     
     if computed_mask is not None:
         mask = mask & computed_mask
         conj_mask = conj_mask & computed_mask
         
+    #k values of the selected data 
+    ks = as_rfft2_data(kmap)[mask]
     
     if masked_data == True:
         mask = mask[computed_mask]
-- 
2.43.0


From d1b198a31ef14c5a50025e3a959f651750cbc596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:15 +0000
Subject: [PATCH 20/48] fix: sectors that wrap around excluded the low and
 included the high limit angle

---
 cddm/map.py | 54 +++++++++++++++++++++++++++++------------------------
 1 file changed, 30 insertions(+), 24 deletions(-)

diff --git a/cddm/map.py b/cddm/map.py
index 4c7c653..f6a4593 100644
--- a/cddm/map.py
+++ b/cddm/map.py
@@ -70,22 +70,25 @@ def sector_indexmap(kmap, anglemap, angle = 0., sector = 30., kstep = 1.):
     out = np.empty(kmap.shape, int)
     out[...] =-1
     
-    high = np.pi/180*(angle + sector/2)
-    low  = np.pi/180*(angle - sector/2)
+    high = angle + sector/2
+    low  = angle - sector/2
     
-    m = np.pi/2
-    negate = False
-        
+    m = 90
+    wrap = False
+    
+    #wrap around in degrees, so that neighbouring sectors have identical limits    
     if high > m:
-        low, high = high%(-m), low
-        negate = True
+        high -= 2*m
+        wrap = True
     elif low < -m:
-        high, low = low%m, high
-        negate = True
+        low += 2*m
+        wrap = True
+    
+    low, high = np.pi/180*low, np.pi/180*high
         
-    if negate:
-        fmask = (anglemap <= high) & (anglemap > low)
-        fmask = np.logical_not(fmask)
+    #sector includes the low limit and excludes the high limit
+    if wrap:
+        fmask = (anglemap < high) | (anglemap >= low)
     else:
         fmask = (anglemap < high) & (anglemap >= low)
     
@@ -133,22 +136,25 @@ def fft2_sector_indexmap(kmap, anglemap, angle = 0., sector = 30., kstep = 1.):
     out = np.empty(kmap.shape, int)
     out[...] =-1
     
-    high = np.pi/180*(angle + sector/2)
-    low  = np.pi/180*(angle - sector/2)
+    high = angle + sector/2
+    low  = angle - sector/2
     
-    m = np.pi
-    negate = False
-        
+    m = 180
+    wrap = False
+    
+    #wrap around in degrees, so that neighbouring sectors have identical limits    
     if high > m:
-        low, high = high%(-m), low
-        negate = True
+        high -= 2*m
+        wrap = True
     elif low < -m:
-        high, low = low%m, high
-        negate = True
+        low += 2*m
+        wrap = True
+    
+    low, high = np.pi/180*low, np.pi/180*high
         
-    if negate:
-        fmask = (anglemap <= high) & (anglemap > low)
-        fmask = np.logical_not(fmask)
+    #sector includes the low limit and excludes the high limit
+    if wrap:
+        fmask = (anglemap < high) | (anglemap >= low)
     else:
         fmask = (anglemap < high) & (anglemap >= low)
     
-- 
2.43.0


From d3a79afce218e38b7b34aaf0abd5f704f643eb63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:12 +0000
Subject: [PATCH 21/48] fix: rfft2_crop and fft2_crop failed when cropping to
 zero wave number

---
 cddm/fft.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/cddm/fft.py b/cddm/fft.py
index 416dc6d..c63e898 100644
--- a/cddm/fft.py
+++ b/cddm/fft.py
@@ -150,7 +150,8 @@ def rfft2_crop(x, kimax = None, kjmax = None):
         
         out = np.empty(shape = x.shape[:-2] + shape, dtype = x.dtype)
         out[...,:istop,:] = x[...,:istop,:jstop] 
-        out[...,-istop+1:,:] = x[...,-istop+1:,:jstop] 
+        if istop > 1:
+            out[...,-istop+1:,:] = x[...,-istop+1:,:jstop] 
         return out
     
 def fft2_crop(x, kimax = None, kjmax = None):
@@ -180,9 +181,12 @@ def fft2_crop(x, kimax = None, kjmax = None):
         
         out = np.empty(shape = x.shape[:-2] + shape, dtype = x.dtype)
         out[...,:istop,:jstop] = x[...,:istop,:jstop] 
-        out[...,-istop+1:,:jstop] = x[...,-istop+1:,:jstop] 
-        out[...,:istop,-jstop+1:] = x[...,:istop,-jstop+1:] 
-        out[...,-istop+1:,-jstop+1:] = x[...,-istop+1:,-jstop+1:] 
+        if istop > 1:
+            out[...,-istop+1:,:jstop] = x[...,-istop+1:,:jstop] 
+        if jstop > 1:
+            out[...,:istop,-jstop+1:] = x[...,:istop,-jstop+1:] 
+        if istop > 1 and jstop > 1:
+            out[...,-istop+1:,-jstop+1:] = x[...,-istop+1:,-jstop+1:] 
         return out
        
 def rfft2_video(video, kimax = None, kjmax = None, overwrite_x = False, extra = {}):
-- 
2.43.0


From 6f85ec5e322e0a900e7a6c06870999e6bcb7fd46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:12 +0000
Subject: [PATCH 22/48] fix: rfft2 with scipy did not take the real part of
 complex input like other libraries

---
 cddm/fft.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cddm/fft.py b/cddm/fft.py
index c63e898..ea43d82 100644
--- a/cddm/fft.py
+++ b/cddm/fft.py
@@ -74,7 +74,7 @@ def _rfft2(a, overwrite_x = False, extra = {}):
         out = mkl_fft.rfftn_numpy(a.real,axes =(-2, -1), **extra)
         #return mkl_fft.fft2(a, overwrite_x = overwrite_x)[...,0:cutoff]
     elif libname == "scipy":
-        out = spfft.fft2(a, overwrite_x = overwrite_x, **extra)[...,0:cutoff]
+        out = spfft.fft2(a.real, overwrite_x = overwrite_x, **extra)[...,0:cutoff] #force real in case input is complex
     elif libname == "numpy":
         out = np.fft.rfft2(a.real, **extra) #force real in case input is complex
     elif libname == "pyfftw":
-- 
2.43.0


From 6f917337d05ea8e6128bd738bca489748ba730c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:43 +0000
Subject: [PATCH 23/48] fix: threaded yielded None after the last frame

---
 cddm/video.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cddm/video.py b/cddm/video.py
index 265ba75..eeef10c 100644
--- a/cddm/video.py
+++ b/cddm/video.py
@@ -594,10 +594,10 @@ def threaded(video, queue_size = 0):
     while True:
         out = q.get()
         q.task_done()
-        yield out
-                
+        #None marks the end of the video, it is not a frame
         if out is None:
             break
+        yield out
         
 def figure_title(name):
     """Generate a unique figure title"""
-- 
2.43.0


From a5cdc00a64a733a2f32d115da9faaea2c6b16ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:43 +0000
Subject: [PATCH 24/48] fix: threaded and play_threaded hid errors of the video
 and silently ended the video

---
 cddm/video.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/cddm/video.py b/cddm/video.py
index eeef10c..672a950 100644
--- a/cddm/video.py
+++ b/cddm/video.py
@@ -518,10 +518,14 @@ def play_threaded(video, fps = None):
     """
     q = Queue()
     
+    errors = []
+    
     def worker(video):
         try:
             for frames in video: 
                 q.put(frames)
+        except BaseException as e:
+            errors.append(e)
         finally:
             q.put(None)
     
@@ -564,6 +568,10 @@ def play_threaded(video, fps = None):
             
     _FIGURES.clear()
     
+    #video failed in the background thread
+    if errors:
+        raise errors[0]
+    
 def threaded(video, queue_size = 0):
     """
     Returns a new iterator that runs the process in a background thread. 
@@ -582,10 +590,14 @@ def threaded(video, queue_size = 0):
     """
     q = Queue(queue_size)
     
+    errors = []
+    
     def worker(video):
         try:
             for frames in video: 
                 q.put(frames)
+        except BaseException as e:
+            errors.append(e)
         finally:
             q.put(None)
     
@@ -599,6 +611,10 @@ def threaded(video, queue_size = 0):
             break
         yield out
         
+    #video failed in the background thread
+    if errors:
+        raise errors[0]
+        
 def figure_title(name):
     """Generate a unique figure title"""
     i = len(_FIGURES)+1
-- 
2.43.0


From a36ee42107dada5d6b5b9e8c2607c3a81f36970f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:03 +0000
Subject: [PATCH 25/48] fix: enable_prints ignored the level, printing was
 enabled too early in nested calls

---
 cddm/print_tools.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/cddm/print_tools.py b/cddm/print_tools.py
index 2275681..38ef140 100644
--- a/cddm/print_tools.py
+++ b/cddm/print_tools.py
@@ -48,9 +48,12 @@ def disable_prints():
     return value
     
 def enable_prints(level = None):
-    """Enable message printing. Returns previous verbosity level"""
-    #set verbosity to positve value
-    value = cddm.conf.CDDMConfig.verbose if level is None else int(level)
-    cddm.conf.CDDMConfig.verbose =  abs(cddm.conf.CDDMConfig.verbose)
+    """Enable message printing. Returns previous verbosity level.
+    
+    If level is given (as returned by :func:`disable_prints`), it restores this 
+    level, so that printing stays disabled in nested calls."""
+    value = cddm.conf.CDDMConfig.verbose
+    #set verbosity to positve value, if level is not defined
+    cddm.conf.CDDMConfig.verbose =  abs(value) if level is None else int(level)
     return value
                                         
\ No newline at end of file
-- 
2.43.0


From fec55b1d7383c2e7787d64f7659ec835e9acd51c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:03 +0000
Subject: [PATCH 26/48] fix: stray print of the frame index when data iterator
 is too short

---
 cddm/multitau.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/cddm/multitau.py b/cddm/multitau.py
index d352841..6255aef 100644
--- a/cddm/multitau.py
+++ b/cddm/multitau.py
@@ -1064,7 +1064,6 @@ def _compute_multi_iter(data, t1, t2 = None, period = 1, level_size = 16,
                 yield tuple((reshape_output(o, original_shape,mask) for o in out))
     
     if i < nframes-1:
-        print (i)
         raise ValueError("Data iterator too short.") 
          
     verbosity = disable_prints()
-- 
2.43.0


From e7a1a858b5cb2ccb6fc49eee0dedc90e4edac39b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:03 +0000
Subject: [PATCH 27/48] fix: printing of the frame rate failed if the clock did
 not advance

---
 cddm/print_tools.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cddm/print_tools.py b/cddm/print_tools.py
index 38ef140..a9c57d9 100644
--- a/cddm/print_tools.py
+++ b/cddm/print_tools.py
@@ -38,7 +38,9 @@ def print_frame_rate(n_frames, t0, t1 = None, message = "... processed"):
     if cddm.conf.CDDMConfig.verbose >= 2:
         if t1 is None:
             t1 = time.time()#take current time
-        print (message + " {0} frames with an average frame rate {1:.2f}".format(n_frames, n_frames/(t1-t0)))
+        #elapsed time may be zero, because of limited resolution of the clock
+        rate = n_frames/(t1-t0) if t1 != t0 else float("inf")
+        print (message + " {0} frames with an average frame rate {1:.2f}".format(n_frames, rate))
         
 def disable_prints():
     """Disable message printing. Returns previous verbosity level"""
-- 
2.43.0


From 7880d88789ffd0eec31bd81b4d2ea63dee018dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:03 +0000
Subject: [PATCH 28/48] fix: import failed if more threads are configured than
 available to numba

---
 cddm/conf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cddm/conf.py b/cddm/conf.py
index 5517ab1..c386ee4 100644
--- a/cddm/conf.py
+++ b/cddm/conf.py
@@ -353,7 +353,7 @@ set_fft_threads(_readconfig(config.getint, "fft", "nthreads", detect_number_of_c
 try:
     set_numba_threads(_readconfig(config.getint, "numba", "nthreads", detect_number_of_cores()))
 except ValueError:
-    set_numba_threads(numba.get_numba_threads())
+    set_numba_threads(numba.get_num_threads())
     pass
 
 F32 = numba.float32
-- 
2.43.0


From 38bb234fad6a6347c453b88127cc607bfa3a7386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:33 +0000
Subject: [PATCH 29/48] fix: verbosity level was not restored if calculation
 failed

---
 cddm/multitau.py    |  5 ++++-
 cddm/norm.py        |  3 ++-
 cddm/print_tools.py | 36 +++++++++++++++++++++++++++++++++++-
 cddm/viewer.py      | 12 ++++++++----
 4 files changed, 49 insertions(+), 7 deletions(-)

diff --git a/cddm/multitau.py b/cddm/multitau.py
index 6255aef..b98a1b1 100644
--- a/cddm/multitau.py
+++ b/cddm/multitau.py
@@ -32,7 +32,7 @@ from cddm.core import _transpose_data, _inspect_cross_arguments,_default_norm,\
 import numpy as np
 
 from cddm.conf import CDTYPE, FDTYPE, IDTYPE
-from cddm.print_tools import print_progress,  print_frame_rate, enable_prints, disable_prints
+from cddm.print_tools import print_progress,  print_frame_rate, enable_prints, disable_prints, preserve_verbosity, preserve_verbosity_iter
 from cddm.print_tools import print1, print2
 
 from cddm._core_nb import convolve, _calc_stats_vec,  _abs2
@@ -156,6 +156,7 @@ def _determine_lengths(length, n, period, nlevel):
     assert nlevel >= 0
     return n_fast, n_slow, nlevel
 
+@preserve_verbosity
 def _compute_multi(f1,f2 = None, t1 = None, t2 = None, axis = 0, period = 1, level_size = 2**4, 
                          binning = None,  nlevel = None, norm = None, method = None, align = False, thread_divisor = None, mask = None, complex = False):
     """Implements multiple tau algorithm for cross(auto)-correlation(difference) calculation.
@@ -730,6 +731,7 @@ def _add_sq2(i,x1,x2,sq1,sq2,binning, r = None):
 def _add_sq1(i,x1,sq1,binning, r = None):
     return _add_data1(i,_abs2(x1), sq1, binning,r)  
                        
+@preserve_verbosity_iter
 def _compute_multi_iter(data, t1, t2 = None, period = 1, level_size = 16, 
                         chunk_size = None,  binning = None, method = "corr", count = None,
                         auto_background = False, nlevel = None,  norm = None,
@@ -1682,6 +1684,7 @@ def t_multilevel(shape, period = 1):
         x *= 2
     return out
         
+@preserve_verbosity
 def normalize_multi(data, background = None, variance = None, norm = None,  mode = "corr", 
               scale = False, mask = None):
     """A multitau version of :func:`.core.normalize`.
diff --git a/cddm/norm.py b/cddm/norm.py
index 9294e0d..e1e8344 100755
--- a/cddm/norm.py
+++ b/cddm/norm.py
@@ -11,7 +11,7 @@ from __future__ import absolute_import, print_function, division
 
 import numpy as np
 from cddm.conf import CDTYPE, FDTYPE
-from cddm.print_tools import print1,print2, enable_prints, disable_prints
+from cddm.print_tools import print1,print2, enable_prints, disable_prints, preserve_verbosity
 
 from cddm._core_nb import normalize_struct_compensated, normalize_corr_compensated,\
     normalize_corr_compensated_subtracted,\
@@ -486,6 +486,7 @@ def _inspect_scale(scale):
     except:
         raise ValueError("Invalid scale")
         
+@preserve_verbosity
 def normalize(data, background = None, variance = None, norm = None,  mode = "corr", 
               scale = False, mask = None, weight = None, ret_weight = False, out = None):
     """Normalizes correlation (difference) data. Data must be data as returned
diff --git a/cddm/print_tools.py b/cddm/print_tools.py
index a9c57d9..b38601a 100644
--- a/cddm/print_tools.py
+++ b/cddm/print_tools.py
@@ -6,6 +6,8 @@ verbosity levels 1 and 2 enable printing, 0 disables printing messages.
 from __future__ import absolute_import, print_function, division
 
 import time
+from contextlib import contextmanager
+from functools import wraps
 import cddm.conf
 
 def print1(*args, **kwargs):
@@ -58,4 +60,36 @@ def enable_prints(level = None):
     #set verbosity to positve value, if level is not defined
     cddm.conf.CDDMConfig.verbose =  abs(value) if level is None else int(level)
     return value
-                                        
\ No newline at end of file
+
+@contextmanager
+def _verbosity_on_error():
+    """Restores verbosity level if code in the context fails."""
+    value = cddm.conf.CDDMConfig.verbose
+    try:
+        yield
+    except BaseException:
+        cddm.conf.CDDMConfig.verbose = value
+        raise
+    
+def preserve_verbosity(func):
+    """Decorates a function, so that verbosity level is restored if it fails
+    in the section with the disabled prints."""
+    @wraps(func)
+    def _func(*args, **kwargs):
+        with _verbosity_on_error():
+            return func(*args, **kwargs)
+    return _func
+
+def preserve_verbosity_iter(func):
+    """Same as :func:`preserve_verbosity`, but for generator functions."""
+    @wraps(func)
+    def _func(*args, **kwargs):
+        iterator = func(*args, **kwargs)
+        while True:
+            with _verbosity_on_error():
+                try:
+                    out = next(iterator)
+                except StopIteration:
+                    return
+            yield out
+    return _func
diff --git a/cddm/viewer.py b/cddm/viewer.py
index 60f9979..677c160 100644
--- a/cddm/viewer.py
+++ b/cddm/viewer.py
@@ -371,8 +371,10 @@ class DataArrayViewer(object):
               
         with np.errstate(divide='ignore', invalid='ignore'):
             state = disable_prints()
-            t, avg_data = self.get_data()
-            enable_prints(state)            
+            try:
+                t, avg_data = self.get_data()
+            finally:
+                enable_prints(state)            
         try:
             self.l.set_ydata(avg_data)
             self.l.set_xdata(t)
@@ -780,8 +782,10 @@ class DataViewer(object):
                     
         with np.errstate(divide='ignore', invalid='ignore'):
             state = disable_prints()
-            t, avg_data = self.get_data()
-            enable_prints(state)            
+            try:
+                t, avg_data = self.get_data()
+            finally:
+                enable_prints(state)            
         try:
             self.l.set_ydata(avg_data)
             self.l.set_xdata(t)
-- 
2.43.0


From 3429f14e0f8f21f43e89a6714a149b9cde85821d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:33 +0000
Subject: [PATCH 30/48] fix: asmemmaps failed for lists of frames, although
 length of the list was determined

---
 cddm/video.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cddm/video.py b/cddm/video.py
index 672a950..9ced115 100644
--- a/cddm/video.py
+++ b/cddm/video.py
@@ -133,6 +133,8 @@ def asmemmaps(basename, video, count = None):
     print1("Writing to memmap...")
     print_progress(0, count)
     
+    video = iter(video)
+    
     frames = next(video)
     out = _empty_arrays(frames)
     [_load(out[i][0],frame) for i,frame in enumerate(frames)]
-- 
2.43.0


From 2c349d17fb0de384b2819bd879a4b82ec616009c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:42 +0000
Subject: [PATCH 31/48] fix: loading of a video shorter than the frame count
 returned uninitialised frames

---
 cddm/video.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/cddm/video.py b/cddm/video.py
index 9ced115..d5b7cac 100644
--- a/cddm/video.py
+++ b/cddm/video.py
@@ -47,6 +47,13 @@ def fromarrays(arrays):
     """
     return (frames for frames in zip(*arrays)) 
 
+def _first_frames(video):
+    """Returns first element of the video iterator."""
+    try:
+        return next(video)
+    except StopIteration:
+        raise ValueError("Video is empty")
+
 def asarrays(video, count = None):
     """Loads multi-frame video into numpy arrays. 
      
@@ -82,12 +89,15 @@ def asarrays(video, count = None):
     
     video = iter(video)
     
-    frames = next(video)
+    frames = _first_frames(video)
     out = tuple((np.empty(shape = (count,) + frame.shape, dtype = frame.dtype) for frame in frames))
     [_load(out[i][0],frame) for i,frame in enumerate(frames)]
+    j = -1 #in case there are no more frames
     for j,frames in enumerate(video):
         print_progress(j+1, count)
         [_load(out[i][j+1],frame) for i,frame in enumerate(frames)]
+    if j + 2 != count:
+        raise ValueError("Video length does not match the frame count")
         
     print_progress(count, count)
     print_frame_rate(count,t0)
@@ -135,12 +145,15 @@ def asmemmaps(basename, video, count = None):
     
     video = iter(video)
     
-    frames = next(video)
+    frames = _first_frames(video)
     out = _empty_arrays(frames)
     [_load(out[i][0],frame) for i,frame in enumerate(frames)]
+    j = -1 #in case there are no more frames
     for j,frames in enumerate(video):
         print_progress(j+1, count)
         [_load(out[i][j+1],frame) for i,frame in enumerate(frames)]
+    if j + 2 != count:
+        raise ValueError("Video length does not match the frame count")
     
     print_progress(count, count)   
     return out
-- 
2.43.0


From d2b2f5728d669fdc30115d1986eaf6886eb906e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:25 +0000
Subject: [PATCH 32/48] fix: draw_psf wrote out of the image if psf is larger
 than the image

---
 cddm/_sim_nb.py | 19 +++----------------
 1 file changed, 3 insertions(+), 16 deletions(-)

diff --git a/cddm/_sim_nb.py b/cddm/_sim_nb.py
index 8be99d4..4796443 100644
--- a/cddm/_sim_nb.py
+++ b/cddm/_sim_nb.py
@@ -139,21 +139,8 @@ def draw_psf(im, points, intensity, sigma):
         for i0 in range(h-size,h+size+1):
             for j0 in range(w -size, w+size+1):
                 p = psf_gauss(i0,h0,j0,w0,sigma[k],intensity[k])
-                #j = j0 % width
-                #i = i0 % height
-                
-                # slightly faster implementation of flooring
-                if j0 >= width:
-                    j= j0 - width
-                elif j0 < 0:
-                    j = width + j0
-                else:
-                    j = j0
-                if i0>= height:
-                    i = i0 - height
-                elif i0 < 0:
-                    i = height + i0
-                else:
-                    i = i0
+                #psf can be larger than the image
+                j = j0 % width
+                i = i0 % height
                 im[i,j] = im[i,j] + p
     return im  
\ No newline at end of file
-- 
2.43.0


From 176d6ae5015f7d32761e813e979aeb105d023bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:25 +0000
Subject: [PATCH 33/48] fix: time step was ignored if velocity of the brownian
 walk is a callable

---
 cddm/sim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cddm/sim.py b/cddm/sim.py
index ac3bae6..64cae1c 100644
--- a/cddm/sim.py
+++ b/cddm/sim.py
@@ -138,7 +138,7 @@ def brownian_walk(x0, count = 1024, shape = (256,256), delta = 1, dt = 1, veloci
 
         if callable(velocity):
             _velocity = velocity(x)
-            _velocity = np.asarray(_velocity, FDTYPE)
+            _velocity = np.asarray(_velocity, FDTYPE)*dt
         if callable(delta):
             _delta = delta(x)
             _scale = _delta*np.sqrt(dt)
-- 
2.43.0


From 79fae1405b0dc168c13b7224928e695936802e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:25 +0000
Subject: [PATCH 34/48] fix: brownian walk failed if delta is a callable that
 returns a parameter for each particle

---
 cddm/sim.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cddm/sim.py b/cddm/sim.py
index 64cae1c..28e3d2c 100644
--- a/cddm/sim.py
+++ b/cddm/sim.py
@@ -141,8 +141,10 @@ def brownian_walk(x0, count = 1024, shape = (256,256), delta = 1, dt = 1, veloci
             _velocity = np.asarray(_velocity, FDTYPE)*dt
         if callable(delta):
             _delta = delta(x)
-            _scale = _delta*np.sqrt(dt)
-            _scale = np.asarray(_scale, FDTYPE)
+            _scale = np.asarray(_delta, FDTYPE)*np.sqrt(dt)
+            if _scale.ndim == 1:
+                #one parameter for each of the particles
+                _scale = _scale[:,None]
             
         x = make_step(x,_scale, _velocity) 
         x = mirror(x,x1,x2)
-- 
2.43.0


From eab49454ad54298a92d314a8b528058ec181efc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:25 +0000
Subject: [PATCH 35/48] fix: simulated dual video lost and mismatched frames if
 a camera lags for more than one frame

---
 cddm/sim.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/cddm/sim.py b/cddm/sim.py
index 28e3d2c..bc8e0d4 100644
--- a/cddm/sim.py
+++ b/cddm/sim.py
@@ -233,8 +233,9 @@ def particles_video(particles, t1, shape = (256,256), t2 = None,
     height, width = shape
     
         
-    out1 = None
-    out2 = None
+    #frames waiting for the frame of the other camera
+    out1 = []
+    out2 = []
     
     t1 = list(t1)
     t2 = list(t2) if t2 is not None else None
@@ -264,20 +265,18 @@ def particles_video(particles, t1, shape = (256,256), t2 = None,
         if i in t1[:1]:
             t1.pop(0)
             data1 = coordinate_transform(data, shape, offset = offset, rotation = rotation)
-            out1 = get_frame(data1)   
+            out1.append(get_frame(data1))
             
         if t2 is not None and i in t2[:1]:
             t2.pop(0)
-            out2 = get_frame(data)  
+            out2.append(get_frame(data))
             
         if t2 is not None:
-            if out1 is not None and out2 is not None:
-                yield out1, out2
-                out1, out2 = None, None
+            if out1 and out2:
+                yield out1.pop(0), out2.pop(0)
         else:
-            if out1 is not None:
-                yield out1,
-                out1 = None     
+            if out1:
+                yield out1.pop(0),
 
 def data_trigger(data, indices):
     """A generator that selects data from an iterator 
-- 
2.43.0


From 79b0a4925a1d114ffc3c032ecf3156df581f8f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:25 +0000
Subject: [PATCH 36/48] fix: data_trigger failed if there are no indices

---
 cddm/sim.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cddm/sim.py b/cddm/sim.py
index bc8e0d4..77894c8 100644
--- a/cddm/sim.py
+++ b/cddm/sim.py
@@ -293,6 +293,10 @@ def data_trigger(data, indices):
     
     t = list(reversed(sorted(set(indices))))  #make all indices unique and sorted. 
     
+    if not t:
+        #nothing to select
+        return
+    
     ii = t.pop()
     
     for i,d in enumerate(data):
-- 
2.43.0


From d27f00f9fe09e183645b83f8b8880efe9eabb4ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:35 +0000
Subject: [PATCH 37/48] fix: draw_psf lost intensities of overlapping particles
 in the parallel target (data race)

---
 cddm/_sim_nb.py | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/cddm/_sim_nb.py b/cddm/_sim_nb.py
index 4796443..245a6a3 100644
--- a/cddm/_sim_nb.py
+++ b/cddm/_sim_nb.py
@@ -133,14 +133,15 @@ def draw_psf(im, points, intensity, sigma):
     height, width = im.shape
     
     size = int(round(3*sigma.max()))
-    for k in nb.prange(nparticles):
-        h0,w0  = points[k,0], points[k,1]
-        h,w = int(h0), int(w0) 
-        for i0 in range(h-size,h+size+1):
-            for j0 in range(w -size, w+size+1):
-                p = psf_gauss(i0,h0,j0,w0,sigma[k],intensity[k])
-                #psf can be larger than the image
-                j = j0 % width
-                i = i0 % height
-                im[i,j] = im[i,j] + p
-    return im  
\ No newline at end of file
+    #split by rows, so that no two threads write to the same pixel
+    for i in nb.prange(height):
+        for k in range(nparticles):
+            h0,w0  = points[k,0], points[k,1]
+            h,w = int(h0), int(w0) 
+            #psf can be larger than the image, draw all rows of the psf that fall on row i
+            for i0 in range(h - size + (i - h + size) % height, h + size + 1, height):
+                for j0 in range(w -size, w+size+1):
+                    p = psf_gauss(i0,h0,j0,w0,sigma[k],intensity[k])
+                    j = j0 % width
+                    im[i,j] = im[i,j] + p
+    return im  
-- 
2.43.0


From c029911eebcd8bbcced69d258d449757f28bacb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:38 +0000
Subject: [PATCH 38/48] fix: particles_video failed for intensities that are
 given for each particle

---
 cddm/sim.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cddm/sim.py b/cddm/sim.py
index 77894c8..feb610a 100644
--- a/cddm/sim.py
+++ b/cddm/sim.py
@@ -24,7 +24,8 @@ def _inspect_frame_dtype(dtype, intensity):
     dtype = np.dtype(dtype)
     if dtype not in ("uint8", "uint16"):
         raise ValueError("Unsupported dtype")
-    if intensity > 255 and dtype != "uint16" or intensity < 0:
+    #there can be one intensity for each of the particles
+    if np.any(np.greater(intensity, 255)) and dtype != "uint16" or np.any(np.less(intensity, 0)):
         raise ValueError("Invalid intensity for dtype {}".format(dtype))
     return dtype
 
-- 
2.43.0


From 15268ce539acb87910c704ba122eb435ad1d4991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:07 +0000
Subject: [PATCH 39/48] fix: signal sums of the fft method failed in single
 precision

---
 cddm/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cddm/core.py b/cddm/core.py
index be3db01..ae900b8 100644
--- a/cddm/core.py
+++ b/cddm/core.py
@@ -863,7 +863,7 @@ def cross_sum_fft(f, t, t_other = None, axis = 0, n = None, complex = False, tim
         #we need conjugate version of FFT of zero-padded ones at t_other times
         y = np.zeros((length*2), CDTYPE)
         _fill_ones(t_other, y)
-        y = _fft(y, overwrite_x = True)
+        y = np.asarray(_fft(y, overwrite_x = True), CDTYPE) #FFT library may return double precision
         
         if complex == False:  
             return _cross_sum_fft(f,y,t,length,out, out)
@@ -959,7 +959,7 @@ def auto_sum_fft(f, t, axis = 0, n = None, aout = None):
         #we need conjugate version of FFT of zero-padded ones at t_other times
         y = np.zeros((length*2), CDTYPE)
         _fill_ones(t, y)
-        y = _fft(y, overwrite_x = True)
+        y = np.asarray(_fft(y, overwrite_x = True), CDTYPE) #FFT library may return double precision
 
         out0 = _cross_sum_fft(f,y,t,length,out0, out0)
 
-- 
2.43.0


From 5a5924dfd874293650dea7b9a19f62212be4c75c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:12 +0000
Subject: [PATCH 40/48] fix: simulator failed in single precision

---
 cddm/sim.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/cddm/sim.py b/cddm/sim.py
index feb610a..55d975d 100644
--- a/cddm/sim.py
+++ b/cddm/sim.py
@@ -64,7 +64,8 @@ def form_factor(window, sigma = 3, intensity = 5, navg = 10, dtype = "uint8", mo
     for i in range(navg):
         for j in range(navg):
             im = np.zeros(shape, dtype)
-            coord = (np.array(((i,j),)) * np.array(shape))*1.0 / navg
+            coord = (np.array(((i,j),)) * np.array(shape, FDTYPE)) / navg
+            coord = np.asarray(coord, FDTYPE)
             im = draw_psf(im, coord,np.array([intensity], dtype),np.array([sigma], FDTYPE))
             im = im*window
             if mode == 'rfft2':
@@ -130,7 +131,7 @@ def brownian_walk(x0, count = 1024, shape = (256,256), delta = 1, dt = 1, veloci
     if len(shape) != 2:
         raise ValueError("Wrong `shape`, must be 2D.")
     
-    x1, x2 = 0, np.asarray(shape,FDTYPE)
+    x1, x2 = FDTYPE.type(0), np.asarray(shape,FDTYPE)
     
     x = mirror(x,x1,x2) #make sure we start in the box
     
@@ -142,7 +143,7 @@ def brownian_walk(x0, count = 1024, shape = (256,256), delta = 1, dt = 1, veloci
             _velocity = np.asarray(_velocity, FDTYPE)*dt
         if callable(delta):
             _delta = delta(x)
-            _scale = np.asarray(_delta, FDTYPE)*np.sqrt(dt)
+            _scale = np.asarray(np.asarray(_delta)*np.sqrt(dt), FDTYPE)
             if _scale.ndim == 1:
                 #one parameter for each of the particles
                 _scale = _scale[:,None]
@@ -461,6 +462,8 @@ def adc(frame,  saturation = 32768, black_level = 0, bit_depth = "14bit",
         max_value = np.uint8(max_value)
     else:
         max_value = np.uint16(max_value)
+    saturation = np.array(saturation, FDTYPE)
+    black_level = np.array(black_level, FDTYPE)
     return adc_clean(frame,saturation,black_level, max_value, out = out)
 
 def coordinate_transform(data, shape, offset = None, rotation = None):
@@ -492,12 +495,12 @@ def coordinate_transform(data, shape, offset = None, rotation = None):
     if offset is None:
         offset = rotation_offset
     else:
-        offset = np.asarray(offset) +rotation_offset
+        offset = np.asarray(offset, FDTYPE) +rotation_offset
 
 
     data = _coordinate_rotate(data, rotation = rotation) + offset
         
-    x1, x2 = 0, np.asarray(shape,FDTYPE)
+    x1, x2 = FDTYPE.type(0), np.asarray(shape,FDTYPE)
     return mirror(data,x1,x2) #make sure we start in the box
         
 def _coordinate_rotate(data, rotation = None):
-- 
2.43.0


From 0c4d8b45837a44eb5dfcb6bada6f954b3fe05fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:22 +0000
Subject: [PATCH 41/48] fix: call of a deprecated function replaced the warning
 filters of the user

---
 cddm/decorators.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/cddm/decorators.py b/cddm/decorators.py
index 53521bb..4a1de08 100644
--- a/cddm/decorators.py
+++ b/cddm/decorators.py
@@ -87,11 +87,11 @@ def deprecated(info = ""):
     def _deprecated(func):
         @functools.wraps(func)
         def new_func(*args, **kwargs):
-            warnings.simplefilter('always', DeprecationWarning)  # turn off filter
-            warnings.warn("Call to deprecated function {}. {}".format(func.__name__, info),
-                          category=DeprecationWarning,
-                          stacklevel=2)
-            warnings.simplefilter('default', DeprecationWarning)  # reset filter
+            with warnings.catch_warnings(): #user's filters are restored
+                warnings.simplefilter('always', DeprecationWarning)  # turn off filter
+                warnings.warn("Call to deprecated function {}. {}".format(func.__name__, info),
+                              category=DeprecationWarning,
+                              stacklevel=2)
             return func(*args, **kwargs)
         return new_func
     return _deprecated
-- 
2.43.0


From 527a4ef6f3e1f29f9451bbe485643d946ad22458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:58 +0000
Subject: [PATCH 42/48] fix: viewers could not plot with recent versions of
 matplotlib

---
 cddm/viewer.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/cddm/viewer.py b/cddm/viewer.py
index 677c160..cd0c38e 100644
--- a/cddm/viewer.py
+++ b/cddm/viewer.py
@@ -12,12 +12,13 @@ from cddm.decorators import doc_inherit, skip_runtime_error
 
 
 _matplotlib_3_4_or_greater = False
+_matplotlib_3_7_or_greater = False
 
 try:
     import matplotlib
     major, minor = matplotlib.__version__.split(".")[0:2]
-    if int(major) >= 3 and int(minor) >=4:
-        _matplotlib_3_4_or_greater = True
+    _matplotlib_3_4_or_greater = (int(major), int(minor)) >= (3, 4)
+    _matplotlib_3_7_or_greater = (int(major), int(minor)) >= (3, 7)
 except:
     print("Could not determine matplotlib version you are using, assuming < 3.4")
 
@@ -206,6 +207,17 @@ class CustomRadioButtons(RadioButtons):
             The orientation of the buttons: 'vertical' (default), or 'horizontal'.
         Further parameters are passed on to `Legend`.
         """
+        if _matplotlib_3_7_or_greater:
+            #buttons are no longer separate artists, these can be arranged after init.
+            RadioButtons.__init__(self, ax, labels, active = active, 
+                                  activecolor = activecolor, radio_props = {"s" : size})
+            if orientation == "horizontal":
+                n = len(labels)
+                self._buttons.set_offsets([((i + 0.1)/n, 0.5) for i in range(n)])
+                for i, label in enumerate(self.labels):
+                    label.set_position(((i + 0.2)/n, 0.5))
+            return
+        
         AxesWidget.__init__(self, ax)
         self.activecolor = activecolor
         axcolor = ax.get_facecolor()
@@ -245,6 +257,8 @@ class CustomRadioButtons(RadioButtons):
 
 
     def _clicked(self, event):
+        if _matplotlib_3_7_or_greater:
+            return super()._clicked(event)
         if (self.ignore(event) or event.mouseevent.button != 1 or
             event.mouseevent.inaxes != self.ax):
             return
-- 
2.43.0


From c4fa460a45c683fbe6dbc408f593a83c065a8d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:12 +0000
Subject: [PATCH 43/48] fix: array viewers failed unless axes were the first
 ones

---
 cddm/viewer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cddm/viewer.py b/cddm/viewer.py
index cd0c38e..8425706 100644
--- a/cddm/viewer.py
+++ b/cddm/viewer.py
@@ -327,7 +327,7 @@ class DataArrayViewer(object):
         self.selectorindex.on_clicked(update_mode)
 
     def set_indices(self,*vals):
-        indices = [slice(None)] * len(self.axes)
+        indices = [slice(None)] * max((len(self.axes),) + tuple((ax + 1 for ax in self.axes)))
         for i,ax in enumerate(self.axes):
             indices[ax] = vals[i]
         self.indices = tuple(indices)
-- 
2.43.0


From 7fdea57bf2c7b3d23e7cf908dbf659bb4106e871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:12 +0000
Subject: [PATCH 44/48] fix: get_k of viewers failed for masked data

---
 cddm/viewer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cddm/viewer.py b/cddm/viewer.py
index 8425706..e48f1cb 100644
--- a/cddm/viewer.py
+++ b/cddm/viewer.py
@@ -733,7 +733,7 @@ class DataViewer(object):
         """Returns average k value of current data."""
         if self.mask is None:
             raise ValueError("Mask not specified, you must first set mask.")
-        return self.kmap[self.mask].mean()
+        return self.kmap[self.graph_mask].mean()
     
     def set_mask(self, k, angle = 0, sector = 5, kstep = 1):
         """Sets k-mask for averaging,
-- 
2.43.0


From bd7d2b5dc82860e21c8d42b76e97b008ed09d06e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:21 +0000
Subject: [PATCH 45/48] fix: viewers folded complex data although fold was
 False

---
 cddm/viewer.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/cddm/viewer.py b/cddm/viewer.py
index e48f1cb..a9b130a 100644
--- a/cddm/viewer.py
+++ b/cddm/viewer.py
@@ -515,9 +515,9 @@ class CorrArrayViewer(DataArrayViewer):
         data = normalize(self.data, self.background, self.variance, norm = self.norm, scale = self.scale, mask = self.mask)
 
         if np.iscomplexobj(data) :
-            if isinstance(self.background, tuple) or isinstance(self.variance, tuple) or self.fold is not None:
+            if self.fold if self.fold is not None else isinstance(self.background, tuple) or isinstance(self.variance, tuple):
                 data = fold_data(data)
-            elif self.background is None and self.variance is None:
+            elif self.fold is None and self.background is None and self.variance is None:
                 raise ValueError("Cannot determine whether data folding is needed. You must explicitly define whether to fold correlation data or not.")
 
         if self.size is not None:
@@ -578,9 +578,9 @@ class MultitauArrayViewer(CorrArrayViewer):
         data = normalize_multi(self.data, self.background, self.variance, norm = self.norm, scale = self.scale, mask = self.mask)
         
         if np.iscomplexobj(data[0]) :
-            if isinstance(self.background, tuple) or isinstance(self.variance, tuple) or self.fold is not None:
+            if self.fold if self.fold is not None else isinstance(self.background, tuple) or isinstance(self.variance, tuple):
                 data = fold_data(data[0],1), fold_data(data[1],1)
-            elif self.background is None and self.variance is None:
+            elif self.fold is None and self.background is None and self.variance is None:
                 raise ValueError("Cannot determine whether data folding is needed. You must explicitly define whether to fold correlation data or not.")
 
         if self.semilogx == True:
@@ -935,9 +935,9 @@ class CorrViewer(DataViewer):
         data = normalize(self.data, self.background, self.variance, norm = self.norm, scale = self.scale, mask = self.half_mask)
 
         if np.iscomplexobj(data) :
-            if isinstance(self.background, tuple) or isinstance(self.variance, tuple) or self.fold is not None:
+            if self.fold if self.fold is not None else isinstance(self.background, tuple) or isinstance(self.variance, tuple):
                 data = fold_data(data)
-            elif self.background is None and self.variance is None:
+            elif self.fold is None and self.background is None and self.variance is None:
                 raise ValueError("Cannot determine whether data folding is needed. You must explicitly define whether to fold correlation data or not.")
 
         if self.size is not None:
@@ -1019,9 +1019,9 @@ class MultitauViewer(CorrViewer):
         data = normalize_multi(self.data, self.background, self.variance, norm = self.norm, scale = self.scale, mask = self.half_mask)
         
         if np.iscomplexobj(data[0]) :
-            if isinstance(self.background, tuple) or isinstance(self.variance, tuple) or self.fold is not None:
+            if self.fold if self.fold is not None else isinstance(self.background, tuple) or isinstance(self.variance, tuple):
                 data = fold_data(data[0],1), fold_data(data[1],1)
-            elif self.background is None and self.variance is None:
+            elif self.fold is None and self.background is None and self.variance is None:
                 raise ValueError("Cannot determine whether data folding is needed. You must explicitly define whether to fold correlation data or not.")
 
         if self.semilogx == True:
-- 
2.43.0


From 732192184db68f5cc4b434cd8597304a918bb59b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:21 +0000
Subject: [PATCH 46/48] fix: fast forward of short videos never advanced

---
 cddm/viewer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cddm/viewer.py b/cddm/viewer.py
index a9b130a..bc86c1b 100644
--- a/cddm/viewer.py
+++ b/cddm/viewer.py
@@ -107,7 +107,7 @@ class VideoViewer(object):
         self.bfast =  Button(self.axfast, 'FF') 
         
         self.playing = False
-        self.step_fast = count/100
+        self.step_fast = max(1, count/100)
         self.step = 1
         
         def _play():
-- 
2.43.0


From 456d13d2a7b57267d8514b37a95242c7c18cd07c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:07 +0000
Subject: [PATCH 47/48] fix: half-plane conversions of axes given with mixed
 signs

sorted((0,-1)) puts the last axis first, so as_rfft2_data, as_rfft2_conj and
from_rfft2_data halved the wrong axis without an error.
---
 cddm/map.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cddm/map.py b/cddm/map.py
index f6a4593..fd8b76f 100644
--- a/cddm/map.py
+++ b/cddm/map.py
@@ -430,7 +430,7 @@ def as_rfft2_conj(a, axes = (-2,-1)):
     >>> np.allclose(cf[2,5], f[-2,-5])
     True
     """
-    ax1,ax2 = tuple(sorted(axes))
+    ax1,ax2 = sorted(ax if ax >= 0 else ax + a.ndim for ax in axes)
     
     slices_in = [slice(None)]*a.ndim
     slices_out = [slice(None)]*a.ndim
@@ -486,7 +486,7 @@ def as_rfft2_data(a, axes = (-2,-1)):
     >>> np.allclose(hf,rf)
     True
     """
-    ax1,ax2 = tuple(sorted(axes))
+    ax1,ax2 = sorted(ax if ax >= 0 else ax + a.ndim for ax in axes)
     
     slices_in = [slice(None)]*a.ndim
     
@@ -513,7 +513,7 @@ def from_rfft2_data(a, shape = None, axes = (-2,-1)):
     >>> np.allclose(from_rfft2_data(hf, shape = (32,32)), f)
     True
     """
-    ax1,ax2 = tuple(sorted(axes))
+    ax1,ax2 = sorted(ax if ax >= 0 else ax + a.ndim for ax in axes)
     
     slices_in = [slice(None)]*a.ndim
     slices_out = [slice(None)]*a.ndim
-- 
2.43.0


From d76218afe26dca7fe1f99627b15085f1db46df11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:35:17 +0000
Subject: [PATCH 48/48] fix: streams of double precision or integer frames in
 single precision

In single precision _abs2 takes complex64 only; frames of real-space streams
are now converted as in the in-memory calculations, instead of a TypeError.
---
 cddm/multitau.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cddm/multitau.py b/cddm/multitau.py
index b98a1b1..ec3f4d1 100644
--- a/cddm/multitau.py
+++ b/cddm/multitau.py
@@ -726,10 +726,10 @@ def _remove_background(fdata1, fdata2, bg1,bg2, half_chunk_size, binning, sq1 =
                 _add_data1(i,_abs2(x1),sq1,binning,r)     
 
 def _add_sq2(i,x1,x2,sq1,sq2,binning, r = None):
-    return _add_data2(i,_abs2(x1), _abs2(x2), sq1,sq2, binning,r)                            
+    return _add_data2(i,_abs2(np.asarray(x1, CDTYPE)), _abs2(np.asarray(x2, CDTYPE)), sq1,sq2, binning,r)
 
 def _add_sq1(i,x1,sq1,binning, r = None):
-    return _add_data1(i,_abs2(x1), sq1, binning,r)  
+    return _add_data1(i,_abs2(np.asarray(x1, CDTYPE)), sq1, binning,r)
                        
 @preserve_verbosity_iter
 def _compute_multi_iter(data, t1, t2 = None, period = 1, level_size = 16, 
-- 
2.43.0

