From ef41a1f817a3406f96741e42c076136530937909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:47 +0000
Subject: [PATCH 01/45] fix: AuxIVA_IP with n_src=None uses as many sources as
 channels

The documented default raised a TypeError when building the demixing matrix.
---
 torchiva/auxiva_ip.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/torchiva/auxiva_ip.py b/torchiva/auxiva_ip.py
index f583edf..86803b3 100644
--- a/torchiva/auxiva_ip.py
+++ b/torchiva/auxiva_ip.py
@@ -221,6 +221,9 @@ class AuxIVA_IP(DRBSSBase):
         batch_shape = X.shape[:-3]
         n_chan, n_freq, n_frames = X.shape[-3:]
 
+        if n_src is None:
+            n_src = n_chan
+
         # for now, only supports determined case
         assert callable(model)
 
-- 
2.43.0


From acb076788fca5b82467eb14b7d49a428ba86d19c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:47 +0000
Subject: [PATCH 02/45] fix: AuxIVA_IP projection back on a microphone index >=
 n_src

The right hand side already has the batch and frequency dimensions in this
case and they were added a second time, so the output had the wrong shape.
---
 torchiva/auxiva_ip.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torchiva/auxiva_ip.py b/torchiva/auxiva_ip.py
index 86803b3..fcb8de6 100644
--- a/torchiva/auxiva_ip.py
+++ b/torchiva/auxiva_ip.py
@@ -96,7 +96,7 @@ def projection_back_from_demixing_matrix(
             e1 = C[..., [ref_mic - n_src], :].transpose(-2, -1)
 
         WW = A + B @ C
-        e1 = torch.broadcast_to(e1, WW.shape[:-2] + e1.shape)
+        e1 = torch.broadcast_to(e1, WW.shape[:-2] + e1.shape[-2:])
         a = solve_loaded_general(WW.transpose(-2, -1), e1)
         a = a.transpose(-3, -2)
 
-- 
2.43.0


From 43be1fdd179110f55c3bcf7a9f40593dcbab4d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:47 +0000
Subject: [PATCH 03/45] fix: T_ISS projection back on a microphone index >=
 n_src for batched input

The fixed list of three dimensions given to permute made it raise as soon as
the input had a batch dimension.
---
 torchiva/t_iss.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torchiva/t_iss.py b/torchiva/t_iss.py
index 7e38484..1e2a14f 100644
--- a/torchiva/t_iss.py
+++ b/torchiva/t_iss.py
@@ -287,7 +287,7 @@ def projection_back_weights(W, J=None, ref_mic=0, eps=1e-6):
             rhs = eye[:, [ref_mic]]
         else:
             rhs = J[..., [ref_mic - n_src], :, :]
-            rhs = rhs.permute([-2, -1, -3])
+            rhs = rhs.moveaxis(-3, -1)
 
         lhs = torch.einsum("...sfc->...fcs", B)
 
-- 
2.43.0


From e24873a795e4c54577464a7d863f88a5f5c1f77d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:47 +0000
Subject: [PATCH 04/45] fix: sign of the dereverberation term in the T_ISS
 background update

The target is W X - H X_bar (see demix_derev), so that E[Y X^H] is
W C_XX - H C_XbarX. With the wrong sign the background was not orthogonal to
the target when n_taps > 0.
---
 torchiva/t_iss.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torchiva/t_iss.py b/torchiva/t_iss.py
index 1e2a14f..a857c82 100644
--- a/torchiva/t_iss.py
+++ b/torchiva/t_iss.py
@@ -202,7 +202,7 @@ def background_update(W, H, C_XX, C_XbarX, eps=1e-5):
 
     A1 = torch.einsum("...sfc,...cfd->...fsd", W, C_XX)
     A2 = torch.einsum("...sfdt,...dtfc->...fsc", H, C_XbarX)
-    A = A1 + A2  # (..., n_freq, n_src, n_chan)
+    A = A1 - A2  # (..., n_freq, n_src, n_chan)
 
     mat = A[..., :n_src]
     rhs = A[..., n_src:]
-- 
2.43.0


From 88083c29dfb504ad92a131674ea5c932dd8863e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:22 +0000
Subject: [PATCH 05/45] fix: phase of the initial estimate of FIVE

The projection of the initial estimate y onto the reference x is
E[x conj(y)] / E[|y|^2], its conjugate was used. This is what forward returns
when n_iter=0, and what a phase sensitive source model is given.
---
 torchiva/five.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torchiva/five.py b/torchiva/five.py
index 677c2ad..58aa8ab 100644
--- a/torchiva/five.py
+++ b/torchiva/five.py
@@ -212,7 +212,7 @@ class FIVE(DRBSSBase):
         if proj_back_mic is not None:
             z = Q[..., 0, None, :] @ Cx[..., proj_back_mic, None]
             z = z.transpose(-3, -2)
-            Y = z[..., 0, :, :] * Y
+            Y = torch.conj(z[..., 0, :, :]) * Y
 
         for epoch in range(n_iter):
 
-- 
2.43.0


From 13b703da38bb0e84486e4b5f17faebc4a2a7a354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:22 +0000
Subject: [PATCH 06/45] fix: initialisation of the power method in FIVE

The starting vectors, (..., n_freq, n_chan), were normalised along the frequency
axis, which mixed the frequencies, and n_power_iter=1 raised because the
eigenvalue was only computed within the loop.
---
 torchiva/five.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/torchiva/five.py b/torchiva/five.py
index 58aa8ab..e4528dc 100644
--- a/torchiva/five.py
+++ b/torchiva/five.py
@@ -30,7 +30,7 @@ from .parameters import eps_models
 
 
 def normalize(x):
-    return x / torch.linalg.norm(x, dim=-2, keepdim=True)
+    return x / torch.linalg.norm(x, dim=-1, keepdim=True)
 
 
 def smallest_eigenvector_eigh_cpu(V):
@@ -59,6 +59,7 @@ def smallest_eigenvector_power_method(V, n_iter=10):
 
     # initial point x0 = [1, 0, ..., 0]
     x = V_inv[..., :, 0]
+    ev = torch.linalg.norm(x, dim=-1)
     x = normalize(x)
 
     for epoch in range(n_iter - 1):
-- 
2.43.0


From 2c06c6211a60fb352b427701bd9fefe19432cdea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:22 +0000
Subject: [PATCH 07/45] fix: FIVE without projection back

The documented proj_back_mic=None indexed the whitening matrix with None and
returned a tensor with extra dimensions.
---
 torchiva/five.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/torchiva/five.py b/torchiva/five.py
index e4528dc..ae0636b 100644
--- a/torchiva/five.py
+++ b/torchiva/five.py
@@ -194,7 +194,8 @@ class FIVE(DRBSSBase):
 
         # we keep the row of Q^{-1} corresponding to the reference mic for the
         # normalization
-        Qinv_ref = Qinv[..., proj_back_mic, :]
+        if proj_back_mic is not None:
+            Qinv_ref = Qinv[..., proj_back_mic, :]
         # Qinv_ref = e_vec[..., proj_back_mic, None, :] * e_val_sqrt[..., None, :]
 
         # keep the input for scaling
@@ -236,8 +237,11 @@ class FIVE(DRBSSBase):
                 )
 
             # projection back
-            z = torch.einsum("...fc,...fc->...f", Qinv_ref, eigenvector)
-            w = eigenvector * torch.conj(z[..., None])
+            if proj_back_mic is not None:
+                z = torch.einsum("...fc,...fc->...f", Qinv_ref, eigenvector)
+                w = eigenvector * torch.conj(z[..., None])
+            else:
+                w = eigenvector
 
             # the new output
             Y = torch.einsum("...fc,...cfn->...fn", w.conj(), X)
-- 
2.43.0


From 18bd9e0618e4ee0a0621e6ca31ab083a47d9b21e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:22 +0000
Subject: [PATCH 08/45] fix: keep the precision of the generalized eigenvalues
 in eigh_2x2

They were stored in a tensor of the default dtype, which rounded them to single
precision for double precision matrices.
---
 torchiva/linalg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torchiva/linalg.py b/torchiva/linalg.py
index 56775a1..41f9bb1 100644
--- a/torchiva/linalg.py
+++ b/torchiva/linalg.py
@@ -197,7 +197,7 @@ def eigh_2x2(
         delta = pt.clamp(delta, min=eps)
 
         # fill the eigenvectors in ascending order
-        eigenvalues = pt.zeros(A.shape[:-1], device=A.device)
+        eigenvalues = delta.new_zeros(A.shape[:-1])
         eigenvalues[..., 0] = 0.5 * (b - pt.sqrt(delta))  # small eigenvalue
         eigenvalues[..., 1] = 0.5 * (b + pt.sqrt(delta))  # large eigenvalue
 
-- 
2.43.0


From 7ab20ae6f772fad07df5fcbedb83eb236f0cb9df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:22 +0000
Subject: [PATCH 09/45] fix: eigh returned the eigenvectors of conj(A) for
 complex 2x2 matrices

This made the whitening of FIVE wrong with two channels. The convention of
eigh_2x2 itself, which tests/test_linalg.py relies on, is left as it is.
---
 torchiva/linalg.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/torchiva/linalg.py b/torchiva/linalg.py
index 41f9bb1..7c5b448 100644
--- a/torchiva/linalg.py
+++ b/torchiva/linalg.py
@@ -281,7 +281,11 @@ def eigh(
 
     # for 2x2, use specialized routine
     if A.shape[-1] == 2:
-        return eigh_2x2(A, B=B, eps=eps)
+        eigenvalues, eigenvectors = eigh_2x2(A, B=B, eps=eps)
+        if B is None:
+            # eigh_2x2 gives the eigenvectors of conj(A) when there is no B
+            eigenvectors = eigenvectors.conj()
+        return eigenvalues, eigenvectors
 
     if B is not None:
         assert A.shape == B.shape, "A and B should have the same size"
-- 
2.43.0


From dadfa92b78ac4a0cffac06235eb392e772179009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:22 +0000
Subject: [PATCH 10/45] fix: AuxIVA_IP2 diverges for signals of ordinary level

eigh_2x2 uses eps as an absolute floor of the discriminant and determinant, that
is of quantities of the order of the fourth power of the signal. With the 1e-5
of the source models the eigenvectors were wrong in most frequency bands of
speech in [-1, 1]: on examples/samples the SDR went down to -8 dB, with the same
constant as linalg.eigh it is 12 dB.
---
 torchiva/auxiva_ip2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torchiva/auxiva_ip2.py b/torchiva/auxiva_ip2.py
index 620a76a..be378a1 100644
--- a/torchiva/auxiva_ip2.py
+++ b/torchiva/auxiva_ip2.py
@@ -66,7 +66,7 @@ def spatial_model_update_ip2(
     # we use the custom 2x2 eigenvalue decomposition solver. It is probably
     # not always faster than torch, but should be more stable for gradient
     # computation
-    eigval, eigvec = eigh_2x2(V[1], V[0], eps=eps)
+    eigval, eigvec = eigh_2x2(V[1], V[0], eps=1e-15)
 
     # reverse order of eigenvectors
     eigvec = torch.flip(eigvec, dims=(-1,))
-- 
2.43.0


From a869b67d4b5eb3d74f2a6e9ed67d58b57a88c9be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:22 +0000
Subject: [PATCH 11/45] fix: STFT with a custom window

Assigning to the read-only property window_type raised an AttributeError, and the
dtype was left to None.
---
 torchiva/stft.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/torchiva/stft.py b/torchiva/stft.py
index 083be5a..e4b7b72 100644
--- a/torchiva/stft.py
+++ b/torchiva/stft.py
@@ -51,12 +51,14 @@ class STFT(torch.nn.Module):
             self._window_type = window
             window = get_window(window, self._n_fft)
         else:
-            self.window_type = "custom"
+            self._window_type = "custom"
 
         if isinstance(window, np.ndarray):
             window = torch.from_numpy(window)
 
         # assign proper type, check dimension, and register as buffer
+        if self.dtype is None:
+            self.dtype = window.dtype
         window = window.to(self.dtype)
         assert isinstance(window, torch.Tensor)
         assert window.ndim == 1 and window.shape[0] == self._n_fft
-- 
2.43.0


From 0f3476dff22a2820f70aa1790c07bcca15f700f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:13 +0000
Subject: [PATCH 12/45] fix: torchiva.separate only gave the first n_src
 channels to the separator

The number of channels is set by --mic. With --mic > --src, the extra channels
were dropped, and FIVE (n_src=1) was run on a single channel.
---
 torchiva/separate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torchiva/separate.py b/torchiva/separate.py
index e134e04..20bb4d6 100644
--- a/torchiva/separate.py
+++ b/torchiva/separate.py
@@ -48,7 +48,7 @@ def separate_one_file(separator, path_in, path_out, n_src, n_chan, device):
         mix = mix[..., :n_chan, :]
 
     with torch.no_grad():
-        y = separator(mix[..., :n_src, :])
+        y = separator(mix)
 
         # if args.n_src > n_ref, select most energetic n_ref sources
         if y.shape[-2] > n_src:
-- 
2.43.0


From 87c8b6403a78caea13dde485825d9f961be586c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:13 +0000
Subject: [PATCH 13/45] fix: NameError in torchiva.separate when there are more
 outputs than sources

---
 torchiva/separate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torchiva/separate.py b/torchiva/separate.py
index 20bb4d6..13fd578 100644
--- a/torchiva/separate.py
+++ b/torchiva/separate.py
@@ -53,7 +53,7 @@ def separate_one_file(separator, path_in, path_out, n_src, n_chan, device):
         # if args.n_src > n_ref, select most energetic n_ref sources
         if y.shape[-2] > n_src:
             y = torchiva.select_most_energetic(
-                y, num=ref.shape[-2], dim=-2, dim_reduc=-1
+                y, num=n_src, dim=-2, dim_reduc=-1
             )
 
         # make same size as input
-- 
2.43.0


From 08396d2f5e9f0c85c15dd43ed60af347f636ac76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:13 +0000
Subject: [PATCH 14/45] fix: --n_iter was ignored by torchiva.separate for
 laplace, gauss, and nmf

---
 torchiva/separate.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/torchiva/separate.py b/torchiva/separate.py
index 13fd578..105ca88 100644
--- a/torchiva/separate.py
+++ b/torchiva/separate.py
@@ -195,6 +195,7 @@ def main(args):
 
         separator = torchiva.nn.BSSSeparator(
             n_fft=args.nfft,
+            n_iter=args.n_iter,
             hop_length=args.hop,
             window=args.win,
             n_taps=args.taps,
-- 
2.43.0


From 989af8815307d1e344518a0ca48251e83ec1e74f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:13 +0000
Subject: [PATCH 15/45] fix: torchiva.separate ran the source model in training
 mode

The dropout layers of a pre-trained model stayed active, so that the output was
random.
---
 torchiva/separate.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/torchiva/separate.py b/torchiva/separate.py
index 105ca88..77f856d 100644
--- a/torchiva/separate.py
+++ b/torchiva/separate.py
@@ -211,6 +211,9 @@ def main(args):
     if args.device is not None:
         separator = separator.to(args.device)
 
+    # inference only, this matters for source models with, e.g., dropout
+    separator.eval()
+
     if args.input.is_dir():
         args.output.mkdir(exist_ok=True, parents=True)
         if not args.output.is_dir():
-- 
2.43.0


From a577ef9f5981e86d56ab829d91f167100d82030b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:34 +0000
Subject: [PATCH 16/45] fix: torchiva.separate lost files of the same name in
 different sub-folders

The input folder is searched recursively, but all the outputs were written
directly in the output folder where they replaced each other. When the output
folder is within the input folder, the results were also taken as new inputs.
---
 torchiva/separate.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/torchiva/separate.py b/torchiva/separate.py
index 77f856d..d30ec75 100644
--- a/torchiva/separate.py
+++ b/torchiva/separate.py
@@ -218,11 +218,21 @@ def main(args):
         args.output.mkdir(exist_ok=True, parents=True)
         if not args.output.is_dir():
             raise ValueError(f"{args.output} is not a folder")
-        if args.output == args.input:
+        if args.output.resolve() == args.input.resolve():
             raise ValueError("Input and output should be different folders")
 
-        for path_in in args.input.rglob("*.wav"):
-            path_out = args.output / path_in.name
+        # list the inputs first, the output folder may be within the input folder
+        output_dir = args.output.resolve()
+        inputs = [
+            p
+            for p in sorted(args.input.rglob("*.wav"))
+            if output_dir not in p.resolve().parents
+        ]
+
+        for path_in in inputs:
+            # keep the sub-folders to avoid clashes between files of the same name
+            path_out = args.output / path_in.relative_to(args.input)
+            path_out.parent.mkdir(exist_ok=True, parents=True)
             separate_one_file(
                 separator, path_in, path_out, args.src, args.mic, args.device
             )
-- 
2.43.0


From 990a27b6a2a5487768910410f472642067741ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:34 +0000
Subject: [PATCH 17/45] fix: torchiva.separate overwrote its input file

When the output was the folder of the input file, or the input spelled
differently, the recording was replaced by the separated signals.
---
 torchiva/separate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torchiva/separate.py b/torchiva/separate.py
index d30ec75..7c7b6bb 100644
--- a/torchiva/separate.py
+++ b/torchiva/separate.py
@@ -249,7 +249,7 @@ def main(args):
         else:
             path_out = args.output
 
-        if args.output == args.input:
+        if path_out.resolve() == args.input.resolve():
             raise ValueError("Input and output should be different files")
 
         separate_one_file(
-- 
2.43.0


From 6180d356b3d617692f55c0bd9ba1aeb72a840c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:34 +0000
Subject: [PATCH 18/45] fix: an interrupted download of a model made all later
 loads fail

The partial file was left in the cache under its final name, where it was found
by all the following calls. Concurrent calls could also read the file while it
was being written.
---
 torchiva/loader.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/torchiva/loader.py b/torchiva/loader.py
index 45fca96..e06af3a 100644
--- a/torchiva/loader.py
+++ b/torchiva/loader.py
@@ -1,4 +1,5 @@
 import os
+import tempfile
 from pathlib import Path
 from typing import Union, Optional
 
@@ -40,7 +41,16 @@ def get_model_from_url(url):
 
     for fn, url in ((ckpt_fn, ckpt_url), (yaml_fn, yaml_url)):
         if not fn.exists():
-            urlretrieve(url, filename=fn)
+            # the file only gets its name when it is complete, so that an
+            # interrupted download is not used by the next call
+            fd, tmp_fn = tempfile.mkstemp(dir=fn.parent, prefix=fn.name, suffix=".part")
+            os.close(fd)
+            try:
+                urlretrieve(url, filename=tmp_fn)
+                os.replace(tmp_fn, fn)
+            except BaseException:
+                os.unlink(tmp_fn)
+                raise
 
     return ckpt_fn, yaml_fn
 
-- 
2.43.0


From 6eca8aff541d3ef383a851aa053209f2e7e3ddb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:34 +0000
Subject: [PATCH 19/45] fix: diagonal_loading ignored its argument and raised a
 NameError

---
 torchiva/linalg.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/torchiva/linalg.py b/torchiva/linalg.py
index 7c5b448..d2dd97b 100644
--- a/torchiva/linalg.py
+++ b/torchiva/linalg.py
@@ -144,9 +144,7 @@ def diagonal_loading(A: pt.Tensor, d: pt.Tensor):
     """
     Load the diagonal of A with the vector d
     """
-    D = pt.diag(pt.arange(A.shape[-1], device=A.device) * eps)
-    D = D.reshape(pt.Size([1] * (len(A.shape) - 2)) + A.shape[-2:])
-    return A + D
+    return A + pt.diag_embed(d)
 
 
 def eigh_2x2(
-- 
2.43.0


From ea8eb35f49526158af021e620431bf2e4d99fd19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:08 +0000
Subject: [PATCH 20/45] fix: models with the same name at different URLs shared
 their cache

The cache folder only depended on the last component of the URL, so that the
first model loaded was silently used in place of all the others of that name.
---
 torchiva/loader.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/torchiva/loader.py b/torchiva/loader.py
index e06af3a..a2b8722 100644
--- a/torchiva/loader.py
+++ b/torchiva/loader.py
@@ -1,3 +1,4 @@
+import hashlib
 import os
 import tempfile
 from pathlib import Path
@@ -34,7 +35,9 @@ def get_model_from_url(url):
     print(yaml_url)
     print(ckpt_url)
 
-    model_path = Path.home() / f".torchiva_models/{model_name}"
+    # models at different URLs may have the same name
+    url_hash = hashlib.sha256(url.strip("/").encode()).hexdigest()[:16]
+    model_path = Path.home() / f".torchiva_models/{model_name}-{url_hash}"
     ckpt_fn, yaml_fn = get_model_filenames(model_path)
 
     ckpt_fn.parent.mkdir(exist_ok=True, parents=True)
-- 
2.43.0


From 3bf8603659a33e0f869f708de3a352b0059951bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:37 +0000
Subject: [PATCH 21/45] fix: eigenvectors of diagonal 2x2 matrices

The eigenvectors were computed from a fixed row of A - ev * B, which is zero for
a diagonal matrix when the diagonal is in the wrong order, e.g., when the input
of AuxIVA_IP2 is already separated. They were then NaN (eps=0) or zero.
---
 torchiva/linalg.py | 34 ++++++++++++++++++++++++----------
 1 file changed, 24 insertions(+), 10 deletions(-)

diff --git a/torchiva/linalg.py b/torchiva/linalg.py
index d2dd97b..b817c85 100644
--- a/torchiva/linalg.py
+++ b/torchiva/linalg.py
@@ -208,12 +208,15 @@ def eigh_2x2(
 
         # now fill the eigenvectors
         eigenvectors = A.new_zeros(A.shape)
-        # vector corresponding to small eigenvalue
-        eigenvectors[..., 0, 0] = multiply(ev1, b12) - a12
-        eigenvectors[..., 1, 0] = a11 - ev1 * b11
-        # vector corresponding to large eigenvalue
-        eigenvectors[..., 0, 1] = multiply(ev2, b12) - a12
-        eigenvectors[..., 1, 1] = a11 - ev2 * b11
+        # A - ev * B has rank one, its null vector can be computed from either row,
+        # use the largest since one of them may be zero, e.g., for diagonal matrices
+        for i, ev in enumerate((ev1, ev2)):
+            r11 = a11 - ev * b11
+            r22 = a22 - ev * b22
+            r12 = a12 - multiply(ev, b12)
+            use_row1 = mag_sq(r11) >= mag_sq(r22)
+            eigenvectors[..., 0, i] = pt.where(use_row1, -r12, r22)
+            eigenvectors[..., 1, i] = pt.where(use_row1, r11, -r12.conj())
 
     else:
         # Do the EVD
@@ -238,13 +241,24 @@ def eigh_2x2(
 
         # now fill the eigenvectors
         eigenvectors = A.new_zeros(A.shape)
+        # A - ev * I has rank one, its null vector can be computed from either row,
+        # use the largest since one of them may be zero, e.g., for diagonal matrices
+        a11, a22 = A[..., 0, 0], A[..., 1, 1]
+        ascending = a11.real <= a22.real
+        ev1 = eigenvalues[..., 0]
+        ev2 = eigenvalues[..., 1]
         # vector corresponding to small eigenvalue
-        eigenvectors[..., 1, 0] = A[..., 0, 1]
-        eigenvectors[..., 0, 0] = eigenvalues[..., 0] - A[..., 1, 1]
+        eigenvectors[..., 1, 0] = pt.where(ascending, A[..., 0, 1], ev1 - a11)
+        eigenvectors[..., 0, 0] = pt.where(ascending, ev1 - a22, A[..., 1, 0])
         # vector corresponding to large eigenvalue
-        eigenvectors[..., 1, 1] = eigenvalues[..., 1] - A[..., 0, 0]
-        eigenvectors[..., 0, 1] = A[..., 1, 0]
+        eigenvectors[..., 1, 1] = pt.where(ascending, ev2 - a11, A[..., 0, 1])
+        eigenvectors[..., 0, 1] = pt.where(ascending, A[..., 1, 0], ev2 - a22)
+
+    # any basis is fine when the two eigenvalues are the same
+    is_zero = mag_sq(eigenvectors).sum(dim=-2, keepdim=True) == 0.0
+    eigenvectors = pt.where(is_zero, pt.eye(2).type_as(A), eigenvectors)
 
+    # normalize the eigenvectors
     norm = pt.sqrt(pt.sum(mag_sq(eigenvectors), dim=-2, keepdim=True))
     eigenvectors = divide(eigenvectors, norm, eps=eps)
 
-- 
2.43.0


From 7cb9cbb6034ec4e0e85be141fea4814d31a26891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:11 +0000
Subject: [PATCH 22/45] fix: T_ISS overflowed when a channel or a frequency has
 no signal

The scale of a source with zero energy was multiplied by 1 / sqrt(eps) several
times per iteration, which gave NaN for all the sources within a few iterations
in single precision. Such a source is now left as it is.
---
 torchiva/t_iss.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/torchiva/t_iss.py b/torchiva/t_iss.py
index a857c82..bf3784f 100644
--- a/torchiva/t_iss.py
+++ b/torchiva/t_iss.py
@@ -73,7 +73,8 @@ def iss_block_update_type_1(
 
     v = divide(v_num, v_denom, eps=eps)
     v_s = 1.0 - (1.0 / torch.sqrt(torch.clamp(v_denom[..., src, :], min=eps)))
-    v[..., src, :] = v_s
+    # no normalization if there is no signal at all
+    v[..., src, :] = torch.where(v_denom[..., src, :] > 0.0, v_s, torch.zeros_like(v_s))
 
     return v
 
@@ -236,7 +237,8 @@ def over_iss_t_one_iter(Y, X, X_bar, C_XX, C_XbarX, W, H, J, model, eps=1e-3):
     # <---
     # we normalize the sources to have source to have unit variance prior to
     # computing the model
-    g = torch.clamp(torch.mean(mag_sq(Y), dim=(-2, -1), keepdim=True), min=eps)
+    g = torch.mean(mag_sq(Y), dim=(-2, -1), keepdim=True)
+    g = torch.where(g > 0.0, torch.clamp(g, min=eps), torch.ones_like(g))
     g_sqrt = torch.sqrt(g)
     Y = divide(Y, g_sqrt, eps=eps)
     W = divide(W, g_sqrt, eps=eps)
-- 
2.43.0


From aaa3ea47e340e79154af1946b9f535cdf856b406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:33 +0000
Subject: [PATCH 23/45] fix: inv_2x2 of a single matrix had an extra dimension

---
 torchiva/linalg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torchiva/linalg.py b/torchiva/linalg.py
index b817c85..e0a81ab 100644
--- a/torchiva/linalg.py
+++ b/torchiva/linalg.py
@@ -129,7 +129,7 @@ def inv_2x2(W: pt.Tensor, eps=1e-6):
     det = W11 * W22 - W12 * W21
 
     # complex clamp
-    det = pt.where(abs(det) < eps, eps * det.new_ones(1), det)
+    det = pt.where(abs(det) < eps, eps * pt.ones_like(det), det)
 
     adjoint = pt.stack(
         (pt.stack((W22, -W21), dim=-1), pt.stack((-W12, W11), dim=-1)), dim=-1
-- 
2.43.0


From 891d83c332b7df2a1bfcbd16a298165490bd2e04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:33 +0000
Subject: [PATCH 24/45] fix: lazily conjugated inputs raised an error

Since pytorch 1.10, conj() returns a view that view_as_real does not accept. The
GEV beamformer, the 2x2 eigenvalue decomposition, and the BLSTM on complex spectra
raised when they were given the conjugate of a tensor.
---
 torchiva/linalg.py       | 6 +++---
 torchiva/models/blstm.py | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/torchiva/linalg.py b/torchiva/linalg.py
index e0a81ab..635f477 100644
--- a/torchiva/linalg.py
+++ b/torchiva/linalg.py
@@ -48,7 +48,7 @@ def multiply(tensor1: pt.Tensor, tensor2: pt.Tensor):
             tensor1, tensor2 = tensor2, tensor1
 
         # tensor1 is real, tensor2 is complex
-        return pt.view_as_complex(pt.view_as_real(tensor2) * tensor1[..., None])
+        return pt.view_as_complex(pt.view_as_real(tensor2.resolve_conj()) * tensor1[..., None])
 
 
 def mag_sq(x: pt.Tensor):
@@ -63,8 +63,8 @@ def mag(x: pt.Tensor):
 
 
 def bmm(input: pt.Tensor, mat2: pt.Tensor) -> pt.Tensor:
-    m1 = pt.view_as_real(input)
-    m2 = pt.view_as_real(mat2)
+    m1 = pt.view_as_real(input.resolve_conj())
+    m2 = pt.view_as_real(mat2.resolve_conj())
     real_part = m1[..., 0] @ m2[..., 0] - m1[..., 1] @ m2[..., 1]
     imag_part = m1[..., 0] @ m2[..., 1] + m1[..., 1] @ m2[..., 0]
     out = pt.cat((real_part[..., None], imag_part[..., None]), dim=-1)
diff --git a/torchiva/models/blstm.py b/torchiva/models/blstm.py
index 4b42698..6a43ed4 100644
--- a/torchiva/models/blstm.py
+++ b/torchiva/models/blstm.py
@@ -64,7 +64,7 @@ class BLSTMMask(nn.Module):
                 X = torch.log(X + 1e-7)
         else:
             # reduce to mel-spectrogram
-            X = torch.view_as_real(X)
+            X = torch.view_as_real(X.resolve_conj())
             Xr = self.mel_layer(X[..., 0])
             Xi = self.mel_layer(X[..., 1])
 
-- 
2.43.0


From 3c083e73d126dbab679cfd8103d9825f2d767f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:12:17 +0000
Subject: [PATCH 25/45] fix: weights of the mixed norm in minimum_distortion
 for 1 < q < 2

---
 torchiva/scaling.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/torchiva/scaling.py b/torchiva/scaling.py
index 2aa3553..87ea98b 100644
--- a/torchiva/scaling.py
+++ b/torchiva/scaling.py
@@ -221,8 +221,7 @@ def lpq_norm(E, p=1, q=2, axis=0) -> pt.Tensor:
     assert p > 0 and q >= p and q <= 2.0
 
     E = E.abs() + 1e-5
-    E = E.pow(q) + 1e-5
-    rn = pt.sum(E, dim=axis, keepdim=True).pow(1 - p / q)
-    qfn = pt.abs(E).pow(2 - q)
+    rn = pt.sum(E.pow(q) + 1e-5, dim=axis, keepdim=True).pow(1 - p / q)
+    qfn = E.pow(2 - q)
     weights = p / pt.clamp(2.0 * rn * qfn, min=eps_scaling["gmdp"])
     return weights
-- 
2.43.0


From 69f34e613b173072c0a33853388e556e0ca8656f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:20 +0000
Subject: [PATCH 26/45] fix: eigh_2x2 is wrong for matrices of small magnitude

---
 torchiva/linalg.py | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/torchiva/linalg.py b/torchiva/linalg.py
index 635f477..3aad8ea 100644
--- a/torchiva/linalg.py
+++ b/torchiva/linalg.py
@@ -147,6 +147,18 @@ def diagonal_loading(A: pt.Tensor, d: pt.Tensor):
     return A + pt.diag_embed(d)
 
 
+def unit_scale(A: pt.Tensor) -> Tuple[pt.Tensor, pt.Tensor]:
+    """
+    Scales matrices so that the magnitude of their largest coefficient is one
+
+    Returns the scaled matrices and the scales with shape (..., 1)
+    """
+    with pt.no_grad():
+        scale = A.abs().max(dim=-2, keepdim=True).values.max(dim=-1, keepdim=True).values
+        scale = pt.where(scale > 0.0, scale, pt.ones_like(scale))
+    return A / scale, scale[..., 0]
+
+
 def eigh_2x2(
     A: pt.Tensor, B: Optional[pt.Tensor] = None, eps: Optional[float] = 0.0
 ) -> Tuple[pt.Tensor, pt.Tensor]:
@@ -156,10 +168,16 @@ def eigh_2x2(
     assert 2 == A.shape[-1]
     assert A.shape[-2] == A.shape[-1]
 
+    # the constant eps should not depend on the scale of the input
+    A, scale = unit_scale(A)
+
     if B is not None:
         assert B.shape[-1] == 2
         assert B.shape[-1] == B.shape[-2]
 
+        B, scale_B = unit_scale(B)
+        scale = scale / scale_B
+
         # Do the Generalized EVD
 
         # broadcast
@@ -262,7 +280,7 @@ def eigh_2x2(
     norm = pt.sqrt(pt.sum(mag_sq(eigenvectors), dim=-2, keepdim=True))
     eigenvectors = divide(eigenvectors, norm, eps=eps)
 
-    return eigenvalues, eigenvectors
+    return eigenvalues * scale, eigenvectors
 
 
 def eigh_wrapper(V, use_cpu=True):
-- 
2.43.0


From 3a70a8e46874e00b2aa5e8a2b105964ec9a5a37d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:31:27 +0000
Subject: [PATCH 27/45] fix: the masks of SimpleModel could be zero

The small offset was added before the sigmoid instead of after it.
---
 torchiva/models/simple.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torchiva/models/simple.py b/torchiva/models/simple.py
index 4a8e05e..c5962fd 100644
--- a/torchiva/models/simple.py
+++ b/torchiva/models/simple.py
@@ -40,7 +40,7 @@ class SimpleModel(nn.Module):
         # output mapping
         x = self.output_mapping(x)
 
-        x = torch.sigmoid(self.eps + (1 - self.eps) * x)
+        x = self.eps + (1 - self.eps) * torch.sigmoid(x)
 
         # go back to feature (freq) second
         x = x.transpose(-2, -1)
-- 
2.43.0


From b95fcb00c2228102b13fc2f4c2eafb3f22ae8c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:03 +0000
Subject: [PATCH 28/45] fix: eigenvectors of 2x2 matrices with (nearly)
 repeated eigenvalues

The two vectors were computed independently and could be collinear, so that, e.g.,
AuxIVA_IP2 in single precision gave outputs many times larger than the input when
the two weighted covariance matrices are similar.
---
 torchiva/linalg.py | 51 +++++++++++++++++++++++-----------------------
 1 file changed, 26 insertions(+), 25 deletions(-)

diff --git a/torchiva/linalg.py b/torchiva/linalg.py
index 3aad8ea..c434773 100644
--- a/torchiva/linalg.py
+++ b/torchiva/linalg.py
@@ -220,21 +220,17 @@ def eigh_2x2(
         # normalize the eigenvalues
         eigenvalues = eigenvalues / pt.clamp(det_B[..., None], min=eps)
 
-        # notation
-        ev1 = eigenvalues[..., 0]
-        ev2 = eigenvalues[..., 1]
-
-        # now fill the eigenvectors
-        eigenvectors = A.new_zeros(A.shape)
+        # now compute the eigenvector of the small eigenvalue
         # A - ev * B has rank one, its null vector can be computed from either row,
         # use the largest since one of them may be zero, e.g., for diagonal matrices
-        for i, ev in enumerate((ev1, ev2)):
-            r11 = a11 - ev * b11
-            r22 = a22 - ev * b22
-            r12 = a12 - multiply(ev, b12)
-            use_row1 = mag_sq(r11) >= mag_sq(r22)
-            eigenvectors[..., 0, i] = pt.where(use_row1, -r12, r22)
-            eigenvectors[..., 1, i] = pt.where(use_row1, r11, -r12.conj())
+        ev = eigenvalues[..., 0]
+        r11 = a11 - ev * b11
+        r22 = a22 - ev * b22
+        r12 = a12 - multiply(ev, b12)
+        use_row1 = mag_sq(r11) >= mag_sq(r22)
+        vec_small = pt.stack(
+            (pt.where(use_row1, -r12, r22), pt.where(use_row1, r11, -r12.conj())), dim=-1
+        )
 
     else:
         # Do the EVD
@@ -257,24 +253,29 @@ def eigh_2x2(
         eigenvalues[..., 0] = 0.5 * (trace - pt.sqrt(delta))  # small eigenvalue
         eigenvalues[..., 1] = 0.5 * (trace + pt.sqrt(delta))  # large eigenvalue
 
-        # now fill the eigenvectors
-        eigenvectors = A.new_zeros(A.shape)
+        # now compute the eigenvector of the small eigenvalue
         # A - ev * I has rank one, its null vector can be computed from either row,
         # use the largest since one of them may be zero, e.g., for diagonal matrices
         a11, a22 = A[..., 0, 0], A[..., 1, 1]
         ascending = a11.real <= a22.real
-        ev1 = eigenvalues[..., 0]
-        ev2 = eigenvalues[..., 1]
-        # vector corresponding to small eigenvalue
-        eigenvectors[..., 1, 0] = pt.where(ascending, A[..., 0, 1], ev1 - a11)
-        eigenvectors[..., 0, 0] = pt.where(ascending, ev1 - a22, A[..., 1, 0])
-        # vector corresponding to large eigenvalue
-        eigenvectors[..., 1, 1] = pt.where(ascending, ev2 - a11, A[..., 0, 1])
-        eigenvectors[..., 0, 1] = pt.where(ascending, A[..., 1, 0], ev2 - a22)
+        ev = eigenvalues[..., 0]
+        vec_small = pt.stack(
+            (
+                pt.where(ascending, ev - a22, A[..., 1, 0]),
+                pt.where(ascending, A[..., 0, 1], ev - a11),
+            ),
+            dim=-1,
+        )
 
     # any basis is fine when the two eigenvalues are the same
-    is_zero = mag_sq(eigenvectors).sum(dim=-2, keepdim=True) == 0.0
-    eigenvectors = pt.where(is_zero, pt.eye(2).type_as(A), eigenvectors)
+    is_zero = mag_sq(vec_small).sum(dim=-1, keepdim=True) == 0.0
+    vec_small = pt.where(is_zero, pt.eye(2).type_as(A)[0], vec_small)
+
+    # the eigenvector of the large eigenvalue is orthogonal to the first one with
+    # respect to B, the two are thus independent even for repeated eigenvalues
+    u = vec_small if B is None else (B @ vec_small[..., None])[..., 0]
+    vec_large = pt.stack((u[..., 1].conj(), -u[..., 0].conj()), dim=-1)
+    eigenvectors = pt.stack((vec_small, vec_large), dim=-1)
 
     # normalize the eigenvectors
     norm = pt.sqrt(pt.sum(mag_sq(eigenvectors), dim=-2, keepdim=True))
-- 
2.43.0


From 7fb071dfa327ca7963e764cc2900ab77947a372b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:14:01 +0000
Subject: [PATCH 29/45] fix: projection back of AuxIVA_IP2 for loud signals

The determinant of the demixing matrix scales with the inverse of the squared
level of the input and was clamped to a constant, the separated signals then
did not add up to the reference microphone.
---
 torchiva/auxiva_ip2.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/torchiva/auxiva_ip2.py b/torchiva/auxiva_ip2.py
index be378a1..6451c86 100644
--- a/torchiva/auxiva_ip2.py
+++ b/torchiva/auxiva_ip2.py
@@ -84,7 +84,9 @@ def spatial_model_update_ip2(
     if W is not None:
         W = hermite(eigvec)
         if A is not None:
-            A = inv_2x2(W)
+            # the scale of the rows depends on the level of the input
+            norm = torch.clamp(torch.linalg.norm(W, dim=-1, keepdim=True), min=1e-30)
+            A = inv_2x2(W / norm) / norm.transpose(-2, -1)
 
     X = torch.einsum("...fcd,...dfn->...cfn", hermite(eigvec), Xo)
 
-- 
2.43.0


From c0039e1e506960e4664e0af1fac95947d21e8902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:23:55 +0000
Subject: [PATCH 30/45] fix: the MVDR beamformer attenuated loud frequencies

The noise power of the filter was clamped to a constant. For recordings of
ordinary level it is often smaller, the constraint of no distortion of the
target was then not satisfied.
---
 torchiva/beamformer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/torchiva/beamformer.py b/torchiva/beamformer.py
index 1cc4be7..59342f6 100644
--- a/torchiva/beamformer.py
+++ b/torchiva/beamformer.py
@@ -115,6 +115,10 @@ def compute_mvdr_bf(
     eps: Optional[float] = 1e-5,
 ) -> torch.Tensor:
 
+    # the level of the noise does not change the beamformer
+    level = covmat_noise.abs().amax(dim=(-2, -1), keepdim=True)
+    covmat_noise = covmat_noise / torch.clamp(level, min=1e-30)
+
     a = solve_loaded(covmat_noise, steering_vector, load=eps)
     denom = torch.einsum("...c,...c->...", steering_vector.conj(), a)
     denom = denom.real  # because covmat is PSD
-- 
2.43.0


From 26a56e8424deaa7c53bb105551f0611a1bb5866e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:43 +0000
Subject: [PATCH 31/45] fix: WPE loses its dereverberation when the input
 starts with silence

---
 torchiva/wpe.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/torchiva/wpe.py b/torchiva/wpe.py
index e710278..3b8fe94 100644
--- a/torchiva/wpe.py
+++ b/torchiva/wpe.py
@@ -21,7 +21,7 @@
 from typing import Optional
 import torch
 
-from .linalg import hankel_view, mag_sq, solve_loaded
+from .linalg import hankel_view, mag_sq, solve_loaded, unit_scale
 from .base import DRBSSBase
 
 
@@ -75,6 +75,11 @@ def wpe_one_iter(
     acm = acm.reshape(batch_shape + (n_freq, Lh, Lh))
     xcv = xcv.reshape(batch_shape + (n_freq, Lh, n_chan))
 
+    # the loading should not depend on the scale of the weights, they are all very
+    # small when the input starts with silence
+    acm, scale = unit_scale(acm)
+    xcv = xcv / scale[..., None]
+
     # H = torch.linalg.solve(acm + eps * torch.eye(Lh).type_as(acm), xcv)
     # H = torch.linalg.solve(acm, xcv)
     H = solve_loaded(acm, xcv, load=eps)
-- 
2.43.0


From d887e231301241d418bca690bd2ff82469d0b2fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:43 +0000
Subject: [PATCH 32/45] fix: minimum_distortion_l2_phase attenuates quiet
 signals instead of only correcting the phase

---
 torchiva/scaling.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/torchiva/scaling.py b/torchiva/scaling.py
index 87ea98b..c385320 100644
--- a/torchiva/scaling.py
+++ b/torchiva/scaling.py
@@ -118,7 +118,9 @@ def minimum_distortion_l2_phase(Y: pt.Tensor, ref: pt.Tensor) -> pt.Tensor:
 
     num = pt.view_as_real(pt.mean(ref[..., None, :].conj() * Y, dim=-1))
     # only correct the phase
-    c = pt.view_as_complex(num / pt.clamp(pt.norm(num, dim=-1, keepdim=True), min=1e-5))
+    c = pt.view_as_complex(
+        num / pt.clamp(pt.norm(num, dim=-1, keepdim=True), min=1e-30)
+    )
 
     return (Y * c[..., :, :, None].conj()).transpose(-3, -2)
 
-- 
2.43.0


From e78217e3ffb3cd13fc3c976f9eb69e96eea5c81e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:06 +0000
Subject: [PATCH 33/45] fix: T_ISS kept the autograd graph of the last call
 alive and could not be copied after training

---
 torchiva/t_iss.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/torchiva/t_iss.py b/torchiva/t_iss.py
index bf3784f..eeb29d3 100644
--- a/torchiva/t_iss.py
+++ b/torchiva/t_iss.py
@@ -535,7 +535,8 @@ class T_ISS(DRBSSBase):
             a = projection_back_weights(W, J=J, eps=eps, ref_mic=proj_back_mic)
             Y = a * Y
 
-        self.W = W
-        self.J = J
+        # keep the demixing matrices, but not the graph (and the memory) of this call
+        self.W = W.detach()
+        self.J = None if J is None else J.detach()
 
         return Y
-- 
2.43.0


From 4fb4d5b434d55bb85cbca6bbf4f12e3de098f8d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:06 +0000
Subject: [PATCH 34/45] fix: WPE did not reset models with internal state for a
 new signal

---
 torchiva/wpe.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/torchiva/wpe.py b/torchiva/wpe.py
index 3b8fe94..2ca8b5e 100644
--- a/torchiva/wpe.py
+++ b/torchiva/wpe.py
@@ -156,6 +156,9 @@ class WPE(DRBSSBase):
             eps=eps,
         )
 
+        # initialize source model if it has a state
+        self._reset(model)
+
         batch_shape = X.shape[:-3]
         n_chan, n_freq, n_frames = X.shape[-3:]
 
-- 
2.43.0


From 7aae642c75618afab3d2dd1fc96d99c451798e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:06 +0000
Subject: [PATCH 35/45] fix: negative reference microphones selected another
 microphone in the overdetermined case

---
 torchiva/auxiva_ip.py | 3 +++
 torchiva/t_iss.py     | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/torchiva/auxiva_ip.py b/torchiva/auxiva_ip.py
index fcb8de6..ec3257e 100644
--- a/torchiva/auxiva_ip.py
+++ b/torchiva/auxiva_ip.py
@@ -77,6 +77,9 @@ def projection_back_from_demixing_matrix(
     n_src, n_freq, n_frames = Y.shape[-3:]
     n_chan = W.shape[-1]
 
+    # negative indices count from the last microphone
+    ref_mic = range(n_chan)[ref_mic]
+
     if J is None:
         eye = torch.eye(n_chan).type_as(W)
         e1 = eye[:, [ref_mic]]
diff --git a/torchiva/t_iss.py b/torchiva/t_iss.py
index eeb29d3..16fa50f 100644
--- a/torchiva/t_iss.py
+++ b/torchiva/t_iss.py
@@ -275,6 +275,9 @@ def projection_back_weights(W, J=None, ref_mic=0, eps=1e-6):
     # projection back (not efficient yet)
     n_src, n_freq, n_chan = W.shape[-3:]
 
+    # negative indices count from the last microphone
+    ref_mic = range(n_chan)[ref_mic]
+
     eye = torch.eye(n_src).type_as(W)
 
     if n_src < n_chan:
-- 
2.43.0


From a8e4c660d2eb4be7283ecfe607f9b1b866b12cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:27 +0000
Subject: [PATCH 36/45] fix: minimum_distortion with a model mixed up
 frequencies and batch, or failed

---
 torchiva/scaling.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/torchiva/scaling.py b/torchiva/scaling.py
index c385320..565bf41 100644
--- a/torchiva/scaling.py
+++ b/torchiva/scaling.py
@@ -183,7 +183,6 @@ def minimum_distortion(
         error = ref[..., :, None, :] - c[..., :, :, None] * Y
         if model is not None:
             weights = model(error.transpose(-3, -2)).transpose(-3, -2)
-            weights = weights[..., 0, 0, :, :]
 
             # let us normalize the weights along the time axis
             norm = pt.sum(weights, dim=-1, keepdim=True)
-- 
2.43.0


From b3f985361de05159e778f3355153b85972d2d2d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:13 +0000
Subject: [PATCH 37/45] fix: LaplaceModel gives NaN gradients for silent frames

---
 torchiva/models/classic.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/torchiva/models/classic.py b/torchiva/models/classic.py
index a5b1b3e..6adcc2a 100644
--- a/torchiva/models/classic.py
+++ b/torchiva/models/classic.py
@@ -36,10 +36,12 @@ class LaplaceModel(pt.nn.Module):
             mag_sq = X.real.square() + X.imag.square()
         else:
             mag_sq = X.square()
-        denom = 2.0 * pt.sqrt(mag_sq.sum(dim=-2, keepdim=True))
+        # clamp before the square root whose gradient is infinite at zero
+        power = pt.clamp(mag_sq.sum(dim=-2, keepdim=True), min=(0.5 * self._eps) ** 2)
+        denom = 2.0 * pt.sqrt(power)
         r = pt.broadcast_to(denom, X.shape)
 
-        r_inv = 1.0 / pt.clamp(r, min=self._eps)
+        r_inv = 1.0 / r
         return r_inv
 
 
-- 
2.43.0


From caec6f59907218ee12b7f2728b92f5655782c29e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:14 +0000
Subject: [PATCH 38/45] fix: NMFModel gives NaN gradients for silent frames

---
 torchiva/models/classic.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/torchiva/models/classic.py b/torchiva/models/classic.py
index 6adcc2a..ef3f51d 100644
--- a/torchiva/models/classic.py
+++ b/torchiva/models/classic.py
@@ -132,9 +132,9 @@ class NMFModel(pt.nn.Module):
         self._init_state(P)
 
         # The basis matrix update
-        self.T = self.T * pt.sqrt(
-            pt.bmm(P * pt.square(self.iR), self.V) / pt.bmm(self.iR, self.V)
-        )
+        gain = pt.bmm(P * pt.square(self.iR), self.V) / pt.bmm(self.iR, self.V)
+        # the gradient of the square root is infinite at zero, e.g., for silent frames
+        self.T = self.T * pt.sqrt(pt.clamp(gain, min=1e-30))
         self.T = pt.clamp(self.T, min=self._eps)
 
         # recompute R = dot(T, V) and its reciprocal
@@ -143,9 +143,8 @@ class NMFModel(pt.nn.Module):
         # The activation matrix update
         iR_T = self.iR.transpose(-2, -1)
         P_T = P.transpose(-2, -1)
-        self.V = self.V * pt.sqrt(
-            pt.bmm(P_T * pt.square(iR_T), self.T) / pt.bmm(iR_T, self.T)
-        )
+        gain = pt.bmm(P_T * pt.square(iR_T), self.T) / pt.bmm(iR_T, self.T)
+        self.V = self.V * pt.sqrt(pt.clamp(gain, min=1e-30))
         self.V = pt.clamp(self.V, min=self._eps)
 
         # recompute R = dot(T, V) and its reciprocal
-- 
2.43.0


From 4e16a3852014cda97dde86bdb34a1f976bb4576b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:14 +0000
Subject: [PATCH 39/45] fix: eigh_2x2 gives NaN gradients for null matrices,
 e.g., empty frequency bands

---
 torchiva/linalg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torchiva/linalg.py b/torchiva/linalg.py
index c434773..966fef5 100644
--- a/torchiva/linalg.py
+++ b/torchiva/linalg.py
@@ -278,7 +278,7 @@ def eigh_2x2(
     eigenvectors = pt.stack((vec_small, vec_large), dim=-1)
 
     # normalize the eigenvectors
-    norm = pt.sqrt(pt.sum(mag_sq(eigenvectors), dim=-2, keepdim=True))
+    norm = pt.linalg.norm(eigenvectors, dim=-2, keepdim=True)
     eigenvectors = divide(eigenvectors, norm, eps=eps)
 
     return eigenvalues * scale, eigenvectors
-- 
2.43.0


From 4da177c553d2befa04393632f1618f2517dabe4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:14 +0000
Subject: [PATCH 40/45] fix: minimum_distortion gives NaN gradients for silent
 frames when p > 1

---
 torchiva/scaling.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/torchiva/scaling.py b/torchiva/scaling.py
index 565bf41..fe6fb9e 100644
--- a/torchiva/scaling.py
+++ b/torchiva/scaling.py
@@ -214,7 +214,9 @@ def minimum_distortion(
 
 def lp_norm(E: pt.Tensor, p: Optional[int] = 1) -> pt.Tensor:
     assert p > 0 and p < 2
-    weights = p / pt.clamp(2.0 * E.abs().pow(2 - p), min=eps_scaling["gmdp"])
+    # the gradient of the power may be infinite at zero
+    E = pt.clamp(E.abs(), min=1e-30)
+    weights = p / pt.clamp(2.0 * E.pow(2 - p), min=eps_scaling["gmdp"])
     return weights
 
 
-- 
2.43.0


From 3e087b3d0609f8d6d11d714585943080f76b23dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:14 +0000
Subject: [PATCH 41/45] fix: gradient of the diagonal loading of WPE depends on
 rounding errors

---
 torchiva/wpe.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/torchiva/wpe.py b/torchiva/wpe.py
index 2ca8b5e..bc14445 100644
--- a/torchiva/wpe.py
+++ b/torchiva/wpe.py
@@ -77,8 +77,10 @@ def wpe_one_iter(
 
     # the loading should not depend on the scale of the weights, they are all very
     # small when the input starts with silence
+    # (the factor keeps away from the floor of the loading where the gradient is ambiguous)
     acm, scale = unit_scale(acm)
-    xcv = xcv / scale[..., None]
+    acm = 2.0 * acm
+    xcv = 2.0 * xcv / scale[..., None]
 
     # H = torch.linalg.solve(acm + eps * torch.eye(Lh).type_as(acm), xcv)
     # H = torch.linalg.solve(acm, xcv)
-- 
2.43.0


From 300dc9a2c22a72047f04975867df29c1cb1b0644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:14 +0000
Subject: [PATCH 42/45] fix: AuxIVA_IP cannot print the cost of a batch

---
 torchiva/auxiva_ip.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torchiva/auxiva_ip.py b/torchiva/auxiva_ip.py
index ec3257e..731ae8d 100644
--- a/torchiva/auxiva_ip.py
+++ b/torchiva/auxiva_ip.py
@@ -109,7 +109,7 @@ def projection_back_from_demixing_matrix(
 
 
 def cost(model, Y, W, J=None, g=None):
-    n_freq, n_src, n_chan = W.shape
+    n_src, n_chan = W.shape[-2:]
     n_frames = Y.shape[-1]
 
     if J is not None:
-- 
2.43.0


From adb96e8d3c700ab68ff3634efda9c59f553e58b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:14 +0000
Subject: [PATCH 43/45] fix: no warning that n_src is ignored when FIVE is
 selected by name

---
 torchiva/nn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torchiva/nn.py b/torchiva/nn.py
index d1247fc..4f333d4 100644
--- a/torchiva/nn.py
+++ b/torchiva/nn.py
@@ -143,7 +143,7 @@ class BSSSeparator(nn.Module):
     def algo(self, val):
         self._algo = SepAlgo(val)
 
-        if val == SepAlgo.FIVE and self.n_src is not None and self.n_src > 1:
+        if self._algo == SepAlgo.FIVE and self.n_src is not None and self.n_src > 1:
             import warnings
 
             warnings.warn(
-- 
2.43.0


From 07f5bc184be0fafc1814d838ac20e07af4d85615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:15 +0000
Subject: [PATCH 44/45] fix: eigenvectors of 2x2 matrices that are equal up to
 scale are not normalised

The null vector is then made of rounding errors, its norm may be smaller
than the floor used in the normalisation.
---
 torchiva/linalg.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/torchiva/linalg.py b/torchiva/linalg.py
index 966fef5..2aa459c 100644
--- a/torchiva/linalg.py
+++ b/torchiva/linalg.py
@@ -268,8 +268,9 @@ def eigh_2x2(
         )
 
     # any basis is fine when the two eigenvalues are the same
-    is_zero = mag_sq(vec_small).sum(dim=-1, keepdim=True) == 0.0
+    is_zero = mag_sq(vec_small).sum(dim=-1, keepdim=True) <= eps ** 2
     vec_small = pt.where(is_zero, pt.eye(2).type_as(A)[0], vec_small)
+    vec_small = vec_small / pt.linalg.norm(vec_small, dim=-1, keepdim=True)
 
     # the eigenvector of the large eigenvalue is orthogonal to the first one with
     # respect to B, the two are thus independent even for repeated eigenvalues
-- 
2.43.0


From ba283c539c7cfd59201818c2d71cecedd2740f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:17 +0000
Subject: [PATCH 45/45] fix: AuxIVA_IP2 without iterations returns the memory
 of its input

---
 torchiva/auxiva_ip2.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/torchiva/auxiva_ip2.py b/torchiva/auxiva_ip2.py
index 6451c86..7f4bc52 100644
--- a/torchiva/auxiva_ip2.py
+++ b/torchiva/auxiva_ip2.py
@@ -212,4 +212,8 @@ class AuxIVA_IP2(DRBSSBase):
             a = A[..., :, [proj_back_mic], :].moveaxis(-1, -3)
             X = a * X
 
+        if n_iter == 0:
+            # never hand back the memory of the caller
+            X = X.clone()
+
         return X
-- 
2.43.0

