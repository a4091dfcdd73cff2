From 9ef7753c0f463940078d7c1c5da57d9b3f7ec1a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:31 +0000
Subject: [PATCH 01/66] fix: keep all processes in step when data of one
 process fail or are partial

A process whose downsampling or preprocessing failed skipped the read window,
and the number of correlation windows depended on the data a process could
read, while the other processes waited in allgather for it.
---
 src/seismic/correlate/correlate.py | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/seismic/correlate/correlate.py b/src/seismic/correlate/correlate.py
index f58d133..61444b0 100644
--- a/src/seismic/correlate/correlate.py
+++ b/src/seismic/correlate/correlate.py
@@ -523,7 +523,9 @@ class Correlator(object):
                     'Downsampling failed for '
                     f'{st[0].stats.network}.{st[0].stats.station} and time'
                     f' {t}.\nThe Original Error Message was {e}.')
-                continue
+                # The other processes wait for this one in the communication
+                # below, so go on without data instead of skipping it.
+                st = Stream()
             # The actual data in the mseeds was changed from int to float64
             # now,
             # Save some space by changing it back to 32 bit (most of the
@@ -537,15 +539,24 @@ class Correlator(object):
                         st, self.store_client, startt, endt, tl,
                         **self.options)
                 except ValueError as e:
+                    stations = ', '.join(sorted(set(
+                        f'{tr.stats.network}.{tr.stats.station}'
+                        for tr in st)))
                     self.logger.error(
-                        'Stream preprocessing failed for '
-                        f'{st[0].stats.network}.{st[0].stats.station} and time'
+                        f'Stream preprocessing failed for {stations} and time'
                         f' {t}.\nThe Original Error Message was {e}.')
-                    continue
+                    st = Stream()
 
             # Slice the stream in correlation length
             # -> Loop over correlation increments
-            for ii, win in enumerate(generate_corr_inc(st, **self.options)):
+            # The number of increments has to be the same on all processes, no
+            # matter which part of the time window their data cover.
+            windows = generate_corr_inc(st, **self.options)
+            nwin = int(np.ceil(
+                self.options['read_len']
+                / self.options['subdivision']['corr_inc']))
+            for ii in range(nwin):
+                win = next(windows, Stream())
                 winstart = startt + ii*self.options['subdivision']['corr_inc']
                 winend = winstart + self.options['subdivision']['corr_len']
 
-- 
2.43.0


From 1f680b061e0b41ed09332eebd1a19c779b11dabd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:08 +0000
Subject: [PATCH 02/66] fix: keep the order of the traces in step with the
 combinations

merge() sorts by location before channel while the combinations are
computed on an order by channel, so with several locations per station the
indices pointed at other traces (e.g. Z-Z pairs for betweenComponents).
---
 src/seismic/correlate/correlate.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/seismic/correlate/correlate.py b/src/seismic/correlate/correlate.py
index 61444b0..bee206b 100644
--- a/src/seismic/correlate/correlate.py
+++ b/src/seismic/correlate/correlate.py
@@ -565,7 +565,7 @@ class Correlator(object):
                 win = Stream()
                 for winp in winl:
                     win.extend(winp)
-                win.sort(keys=['network', 'station', 'channel'])
+                win.sort(keys=['network', 'station', 'channel', 'location'])
 
                 # Get correlation combinations
                 if self.rank == 0:
@@ -629,6 +629,8 @@ class Correlator(object):
                                 'time '
                                 f'{t}.\nThe Original Error Message was {e}.')
                         continue
+                    win.sort(
+                        keys=['network', 'station', 'channel', 'location'])
                     if self.rank == 0:
                         self.options['combinations'] = calc_cross_combis(
                             win, self.ex_dict,
@@ -649,6 +651,9 @@ class Correlator(object):
                     str(win[0].stats.starttime), str(win[0].stats.endtime)))
                 win = win.merge()
                 win = win.trim(winstart, winend, pad=True)
+                # merging changes the order, the combinations are indices of
+                # the order above
+                win.sort(keys=['network', 'station', 'channel', 'location'])
                 yield win, write_flag
                 write_flag = False
 
-- 
2.43.0


From 67f1437bdeca746a1cb65a3f37aa1243b113df6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:40 +0000
Subject: [PATCH 03/66] fix: let each process average and write its own results

Under MPI every process averaged and wrote every component average, all to
the same files.
---
 src/seismic/monitor/monitor.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/seismic/monitor/monitor.py b/src/seismic/monitor/monitor.py
index f7cdf73..be400db 100644
--- a/src/seismic/monitor/monitor.py
+++ b/src/seismic/monitor/monitor.py
@@ -389,6 +389,9 @@ class Monitor(object):
             'crossstations', 'betweenstations', 'betweencomponents')
         if method.lower() not in av_methods:
             raise ValueError('Averaging method not in %s.' % str(av_methods))
+        if self.rank != 0:
+            # Not done in parallel, the processes would write the same files
+            return
         infiles = glob(os.path.join(self.outdir, '*.npz'))
         if method.lower() == 'autocomponents':
             ch = 'av-auto'
@@ -535,7 +538,10 @@ class Monitor(object):
                     wfc.wfc_processing['freq_max'],
                     wfc.wfc_processing['tw_start'],
                     wfc.wfc_processing['tw_len']))
-        wfc_avl = list(set(wfc_avl))
+        # unique, in the same order on all processes
+        wfc_avl = list(dict.fromkeys(wfc_avl))
+        # Each process averages and writes its own groups
+        wfc_avl = wfc_avl[self.rank::self.psize]
         wfcl_sub = []
         for avl in wfc_avl:
             net, stat, fmin, fmax, tw_start, tw_len = avl
-- 
2.43.0


From fbfc26a6063e5ae6090587d87089bceb3b83a808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:18 +0000
Subject: [PATCH 04/66] fix: return the spectral series when the first process
 has no data

The frequency axis was taken from the first process only, so the spectra of
the others were discarded with an error when it had none; equal times made
the sorting compare arrays.
---
 src/seismic/utils/raw_analysis.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/seismic/utils/raw_analysis.py b/src/seismic/utils/raw_analysis.py
index 54961cc..d19e386 100644
--- a/src/seismic/utils/raw_analysis.py
+++ b/src/seismic/utils/raw_analysis.py
@@ -53,6 +53,8 @@ def spct_series_welch(
     specl = []
     # List of actually available times
     t = []
+    # Frequency axis, unknown to a process without data
+    f2 = None
     for ii, st in enumerate(streams):
         # Find out which stream to process
         if ii % psize != rank:
@@ -89,22 +91,25 @@ def spct_series_welch(
     # Gather all the data
     specl = comm.gather(specl, root=0)
     t = comm.gather(t, root=0)
+    f2 = comm.gather(f2, root=0)
     if rank == 0:
         # Flatten the list
         specl = [item for sublist in specl for item in sublist]
         t = [item for sublist in t for item in sublist]
         # Sort from values in t
-        specl = [x for _, x in sorted(zip(t, specl))]
-        t = sorted(t)
+        order = sorted(range(len(t)), key=lambda ii: t[ii])
+        specl = [specl[ii] for ii in order]
+        t = [t[ii] for ii in order]
 
         # Convert to numpy array
         S = np.array(specl)
         t = np.array(t)
-        try:
-            return f2, t, S.T
-        except UnboundLocalError:
-            raise ValueError(
-                'A spectrum could not be computed. Check earlier log messages')
+        # All processes use the same frequencies
+        for f in f2:
+            if f is not None:
+                return f, t, S.T
+        raise ValueError(
+            'A spectrum could not be computed. Check earlier log messages')
     else:
         return None, None, None
 
-- 
2.43.0


From 99aab76529ab33843bd456b4c0598ff3078d45bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:09 +0000
Subject: [PATCH 05/66] fix: close the correlation file when opening it is
 refused

The constructor raised for different processing parameters (or a wrong
compression) after the file had been opened, leaving it open.
---
 src/seismic/db/corr_hdf5.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/seismic/db/corr_hdf5.py b/src/seismic/db/corr_hdf5.py
index 724b43b..a92da1e 100644
--- a/src/seismic/db/corr_hdf5.py
+++ b/src/seismic/db/corr_hdf5.py
@@ -13,6 +13,7 @@ Created: Friday, 16th April 2021 03:21:30 pm
 Last Modified: Friday, 20th October 2023 04:34:04 pm
 '''
 import ast
+from contextlib import suppress
 import fnmatch
 import os
 import re
@@ -47,6 +48,17 @@ class DBHandler(h5py.File):
     """
     def __init__(self, path, mode, compression, co, force):
         super(DBHandler, self).__init__(path, mode=mode)
+        try:
+            self._set_compression(compression)
+            self._check_corr_options(path, co, force)
+        except BaseException:
+            # Do not leave the file open when it is not handed out. A failure
+            # to close must not hide the reason.
+            with suppress(Exception):
+                self.close()
+            raise
+
+    def _set_compression(self, compression):
         if isinstance(compression, str):
             self.compression = re.findall(r'(\w+?)(\d+)', compression)[0][0]
             if self.compression != 'gzip':
@@ -67,6 +79,7 @@ class DBHandler(h5py.File):
             self.compression = None
             self.compression_opts = None
 
+    def _check_corr_options(self, path, co, force):
         # check out the processing that was done on the correlations. Different
         # data will not be allowed
         if co is not None:
-- 
2.43.0


From 113d36c3fc8b0bebcf3cf8bc3ffe2796eda8b995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:19 +0000
Subject: [PATCH 06/66] fix: leave the headers unchanged when combining them

combine_stats removed the asdf entry from and merged the sac entries into
the headers of the two traces it was given.
---
 src/seismic/correlate/stream.py | 9 ++-------
 src/seismic/utils/miic_utils.py | 4 ++++
 2 files changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/seismic/correlate/stream.py b/src/seismic/correlate/stream.py
index a90d595..3cfcf55 100644
--- a/src/seismic/correlate/stream.py
+++ b/src/seismic/correlate/stream.py
@@ -1476,10 +1476,6 @@ def combine_stats(
     if not isinstance(stats2, Stats):
         raise TypeError("stats2 must be an obspy Stats object.")
 
-    # We also have to remove these as they are obspy AttributeDicts as well
-    stats1.pop('asdf', None)
-    stats2.pop('asdf', None)
-
     tr1_keys = list(stats1.keys())
     tr2_keys = list(stats2.keys())
 
@@ -1490,7 +1486,8 @@ def combine_stats(
 
     # Adjust the information to create a new SEED like id
     keywords = ['network', 'station', 'location', 'channel']
-    sac_keywords = ['sac']
+    # We also have to skip asdf as it is an obspy AttributeDict as well
+    sac_keywords = ['sac', 'asdf']
 
     for key in keywords:
         if key in tr1_keys and key in tr2_keys:
@@ -1521,8 +1518,6 @@ def combine_stats(
             stats['evla'] = stats2.sac.stla
             stats['evlo'] = stats2.sac.stlo
             stats['evel'] = stats2.sac.stel
-            stats1.update(stats1['sac'])
-            stats2.update(stats2['sac'])
 
         az, baz, dist = m3ut.trace_calc_az_baz_dist(stats1, stats2)
 
diff --git a/src/seismic/utils/miic_utils.py b/src/seismic/utils/miic_utils.py
index e7f9136..6a7fecb 100644
--- a/src/seismic/utils/miic_utils.py
+++ b/src/seismic/utils/miic_utils.py
@@ -65,6 +65,10 @@ def trace_calc_az_baz_dist(stats1: Stats, stats2: Stats) -> Tuple[
         print("Update obspy.")
         return
 
+    # the coordinates are either in the header itself or in its sac part
+    if 'stla' not in stats1:
+        stats1, stats2 = stats1['sac'], stats2['sac']
+
     dist, az, baz = gps2dist_azimuth(
         stats1['stla'], stats1['stlo'], stats2['stla'], stats2['stlo'])
 
-- 
2.43.0


From ef3859005d5adc988168dc5b5d1c0a25a4934ca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:36 +0000
Subject: [PATCH 07/66] fix: leave the header of the matrix unchanged when
 measuring on it

corr_mat_stretch and corr_mat_shift trimmed the header they were given (that
of the CorrBulk), while the data kept their length.
---
 src/seismic/monitor/post_corr_process.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/seismic/monitor/post_corr_process.py b/src/seismic/monitor/post_corr_process.py
index ecf5072..f7756cb 100644
--- a/src/seismic/monitor/post_corr_process.py
+++ b/src/seismic/monitor/post_corr_process.py
@@ -867,6 +867,7 @@ def corr_mat_stretch(
     """
 
     data = deepcopy(cdata)
+    stats = deepcopy(stats)
 
     dta = -stats['start_lag']
     dte = stats['end_lag']
@@ -969,6 +970,7 @@ def corr_mat_shift(
     """
 
     data = deepcopy(data)
+    stats = deepcopy(stats)
 
     dta = -stats.start_lag
     dte = stats.end_lag
-- 
2.43.0


From cb41cd63360fd4b566595e390c0d7769c0c20767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:49 +0000
Subject: [PATCH 08/66] fix: leave the matrix unchanged that time_stretch_apply
 stretches

The taper was applied in place to the matrix of the caller.
---
 src/seismic/monitor/stretch_mod.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/seismic/monitor/stretch_mod.py b/src/seismic/monitor/stretch_mod.py
index f9e91a5..a8a97fb 100644
--- a/src/seismic/monitor/stretch_mod.py
+++ b/src/seismic/monitor/stretch_mod.py
@@ -1200,7 +1200,7 @@ def time_stretch_apply(
     # taper and extend the reference trace to avoid interpolation
     # artefacts at the ends of the trace
     taper = cosine_taper(mat.shape[1], 0.05)
-    mat *= np.tile(taper, [mat.shape[0], 1])
+    mat = mat * np.tile(taper, [mat.shape[0], 1])
 
     # time axis
     if single_sided:
-- 
2.43.0


From db5d61f04e4b2ccdae4275cf2fca98ca21f47607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:26 +0000
Subject: [PATCH 09/66] fix: do not evaluate directory names as code

get_available_stations called eval() on the name of the year folder.
---
 src/seismic/trace_data/waveform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/seismic/trace_data/waveform.py b/src/seismic/trace_data/waveform.py
index c9d49f9..c141f27 100644
--- a/src/seismic/trace_data/waveform.py
+++ b/src/seismic/trace_data/waveform.py
@@ -158,7 +158,7 @@ class Store_Client(object):
             os.path.join(self.sds_root, '????', network, '*'))
         statlist = []
         for path in oslist:
-            if not isinstance(eval(path.split(os.path.sep)[-3]), int):
+            if not path.split(os.path.sep)[-3].isdigit():
                 continue
             # Add all network and station combinations to list
             code = path.split(os.path.sep)[-2:]
-- 
2.43.0


From e6584587295081fd44237279e9131c171d6c5074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:16 +0000
Subject: [PATCH 10/66] fix: honour read_only when writing inventories and
 mass-downloading

---
 src/seismic/trace_data/waveform.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/seismic/trace_data/waveform.py b/src/seismic/trace_data/waveform.py
index c141f27..6b4ca70 100644
--- a/src/seismic/trace_data/waveform.py
+++ b/src/seismic/trace_data/waveform.py
@@ -86,6 +86,8 @@ class Store_Client(object):
         maxlon: float or None = None, network: str or None = None,
         station: str or None = None, location: str or None = None,
             channel: str or None = None):
+        if self.read_only:
+            raise PermissionError('The local archive is opened read-only.')
         # Initialise MassDownloader
 
         domain = RectangularDomain(
@@ -385,6 +387,8 @@ class Store_Client(object):
             self.inventory += ninv
         else:
             self.inventory = ninv
+        if self.read_only:
+            return
         fname = os.path.join(
             self.inv_dir, f'{ninv[0].code}.{ninv[0][0].code}.xml')
         ninv.write(fname, format="STATIONXML", validate=True)
-- 
2.43.0


From 025063677f0f4b6abc0bc41d17ad717afe4ac89e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:24 +0000
Subject: [PATCH 11/66] fix: do not overwrite the station list of the given
 options

---
 src/seismic/correlate/correlate.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/seismic/correlate/correlate.py b/src/seismic/correlate/correlate.py
index bee206b..4be6a69 100644
--- a/src/seismic/correlate/correlate.py
+++ b/src/seismic/correlate/correlate.py
@@ -173,8 +173,7 @@ class Correlator(object):
                     + 'station code.')
             station = list([n, s] for n, s in zip(network, station))
         elif isinstance(station, list) and isinstance(network, str):
-            for ii, stat in enumerate(station):
-                station[ii] = [network, stat]
+            station = [[network, stat] for stat in station]
         else:
             raise ValueError(
                 'Stations has to be either: \n'
-- 
2.43.0


From e18660a037fe925843aaa44d13d4a70de89d4a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:38 +0000
Subject: [PATCH 12/66] fix: keep preprocess_subdiv and the wfc windows of the
 given options unchanged

---
 src/seismic/correlate/correlate.py |  9 ++++---
 src/seismic/monitor/monitor.py     | 42 ++++++++++++------------------
 2 files changed, 22 insertions(+), 29 deletions(-)

diff --git a/src/seismic/correlate/correlate.py b/src/seismic/correlate/correlate.py
index 4be6a69..6b3f2fa 100644
--- a/src/seismic/correlate/correlate.py
+++ b/src/seismic/correlate/correlate.py
@@ -466,8 +466,9 @@ class Correlator(object):
 
         self.ex_dict = self.comm.bcast(self.ex_dict, root=0)
 
-        if not self.ex_dict and self.options['preprocess_subdiv']:
-            self.options['preprocess_subdiv'] = False
+        preprocess_subdiv = self.options['preprocess_subdiv']
+        if not self.ex_dict and preprocess_subdiv:
+            preprocess_subdiv = False
             if self.rank == 0:
                 self.logger.warning(
                     'No existing data found.\nAutomatically setting '
@@ -531,7 +532,7 @@ class Correlator(object):
             # digitizers work at 24 bit anyways)
             mu.stream_require_dtype(st, np.float32)
 
-            if not self.options['preprocess_subdiv']:
+            if not preprocess_subdiv:
                 try:
                     self.logger.debug('Preprocessing stream...')
                     st = preprocess_stream(
@@ -610,7 +611,7 @@ class Correlator(object):
                             f'No new data for times {winstart}-{winend}')
                         continue
                 # Stream based preprocessing
-                if self.options['preprocess_subdiv']:
+                if preprocess_subdiv:
                     try:
                         win = preprocess_stream(
                             win, self.store_client, winstart, winend,
diff --git a/src/seismic/monitor/monitor.py b/src/seismic/monitor/monitor.py
index be400db..50a2d60 100644
--- a/src/seismic/monitor/monitor.py
+++ b/src/seismic/monitor/monitor.py
@@ -624,36 +624,30 @@ class Monitor(object):
         cb.resample(starttimes, endtimes)
 
         # Allow lists so the computation does not have to be started x times
-        if not isinstance(self.options['wfc']['freq_min'], list):
-            self.options['wfc']['freq_min'] = [
-                self.options['wfc']['freq_min']]
-        if not isinstance(self.options['wfc']['freq_max'], list):
-            self.options['wfc']['freq_max'] = [
-                self.options['wfc']['freq_max']]
-        if len(self.options['wfc']['freq_min']) != len(
-                self.options['wfc']['freq_max']):
+        freq_min = self.options['wfc']['freq_min']
+        freq_max = self.options['wfc']['freq_max']
+        if not isinstance(freq_min, list):
+            freq_min = [freq_min]
+        if not isinstance(freq_max, list):
+            freq_max = [freq_max]
+        if len(freq_min) != len(freq_max):
             raise ValueError(
                 'freq_min and freq_max must be of same length.')
 
-        if not isinstance(self.options['wfc']['tw_start'], list):
-            self.options['wfc']['tw_start'] = [
-                self.options['wfc']['tw_start']]
-        if isinstance(self.options['wfc']['tw_len'], list) and len(
-                self.options['wfc']['tw_len']) != len(
-                self.options['wfc']['tw_start']):
+        tw_starts = self.options['wfc']['tw_start']
+        tw_lens = self.options['wfc']['tw_len']
+        if not isinstance(tw_starts, list):
+            tw_starts = [tw_starts]
+        if not isinstance(tw_lens, list):
+            tw_lens = [tw_lens] * len(tw_starts)
+        elif len(tw_lens) != len(tw_starts):
             raise ValueError(
                 'tw_start and tw_len must be of same length or tw_len must be'
                 ' a single value.')
-        elif not isinstance(self.options['wfc']['tw_len'], list):
-            self.options['wfc']['tw_len'] = [
-                self.options['wfc']['tw_len']] * len(
-                self.options['wfc']['tw_start'])
 
         cb_bac = cb.copy()
 
-        for fmin, fmax in zip(
-                self.options['wfc']['freq_min'],
-                self.options['wfc']['freq_max']):
+        for fmin, fmax in zip(freq_min, freq_max):
             if fmin >= fmax:
                 raise ValueError('freq_min must be smaller than freq_max.')
             cb.filter((fmin, fmax))
@@ -668,13 +662,11 @@ class Monitor(object):
 
             self.logger.debug(
                 f'Preprocessing finished. Computing wfc for fmin: {fmin} '
-                f'and fmax: {fmax} {len(self.options["wfc"]["tw_start"])}'
+                f'and fmax: {fmax} {len(tw_starts)}'
                 f'time windows.')
 
             # Now, we loop over the time windows
-            for tw_start, tw_len in zip(
-                self.options['wfc']['tw_start'],
-                    self.options['wfc']['tw_len']):
+            for tw_start, tw_len in zip(tw_starts, tw_lens):
                 try:
                     # Now, we make a copy of the cm to be trimmed
                     cbt = cb.copy().trim(
-- 
2.43.0


From 8b2effcc328af8089d146a8357dc71e8ff4f7821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:39 +0000
Subject: [PATCH 13/66] fix: '?' in remove_data stands for one character

---
 src/seismic/db/corr_hdf5.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/seismic/db/corr_hdf5.py b/src/seismic/db/corr_hdf5.py
index a92da1e..909089f 100644
--- a/src/seismic/db/corr_hdf5.py
+++ b/src/seismic/db/corr_hdf5.py
@@ -208,7 +208,6 @@ omitted." % path, category=UserWarning)
             return
         # Now, we need to differ between the fnmatch pattern and the actually
         # accessed path
-        path = path.replace('?', '*')
         pattern = path.replace('/*', '*')
         for sst in self.get_available_starttimes(
                 network, station, tag, channel)[channel]:
-- 
2.43.0


From cad76ba0c8360cac70c95dc1aae6ea8a178a1a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:42 +0000
Subject: [PATCH 14/66] fix: get_data accepts wildcards inside of codes

---
 src/seismic/db/corr_hdf5.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/seismic/db/corr_hdf5.py b/src/seismic/db/corr_hdf5.py
index 909089f..87de861 100644
--- a/src/seismic/db/corr_hdf5.py
+++ b/src/seismic/db/corr_hdf5.py
@@ -283,9 +283,9 @@ omitted." % path, category=UserWarning)
             return CorrStream(CorrTrace(data, _header=header))
         # Now, we need to differ between the fnmatch pattern and the actually
         # accessed path
-        path = path.replace('?', '*')
         pattern = path.replace('/*', '*')
-        path = path.split('*')[0]
+        path = re.split(r'[*?]', path)[0]
+        path = path[:path.rfind('/')+1]
         return all_traces_recursive(self[path], CorrStream(), pattern)
 
     def get_available_starttimes(
-- 
2.43.0


From c95fb58787c477baf6ba38e1287dd6beddfc0dca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:43 +0000
Subject: [PATCH 15/66] fix: no existing correlations of a station pair is not
 an error

---
 src/seismic/db/corr_hdf5.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/seismic/db/corr_hdf5.py b/src/seismic/db/corr_hdf5.py
index 87de861..3d9cfb6 100644
--- a/src/seismic/db/corr_hdf5.py
+++ b/src/seismic/db/corr_hdf5.py
@@ -322,8 +322,13 @@ omitted." % path, category=UserWarning)
                 return out
             channel = [channel]
         path = '/'.join(path.split('/')[:-3])
+        try:
+            available = list(self[path].keys())
+        except KeyError:
+            # nothing saved for this tag and station combination
+            return out
         for ch in channel:
-            for match in fnmatch.filter(self[path].keys(), ch):
+            for match in fnmatch.filter(available, ch):
                 out[match] = list(self['/'.join([path, match])].keys())
         return out
 
-- 
2.43.0


From 5a8378461af191c3d06b01605aa0afca1a2f279e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:05 +0000
Subject: [PATCH 16/66] fix: ignore all time masks when comparing processing
 parameters

---
 src/seismic/db/corr_hdf5.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/seismic/db/corr_hdf5.py b/src/seismic/db/corr_hdf5.py
index 3d9cfb6..2621bfe 100644
--- a/src/seismic/db/corr_hdf5.py
+++ b/src/seismic/db/corr_hdf5.py
@@ -540,8 +540,9 @@ def co_to_hdf5(co: dict) -> dict:
         coc['subdivision'].pop('recombine_subdivision', None)
         coc['subdivision'].pop('delete_subdivision', None)
     try:
-        [coc['preProcessing'].remove(step) for step in coc['preProcessing']
-            if 'stream_mask_at_utc' in step['function']]
+        coc['preProcessing'] = [
+            step for step in coc['preProcessing']
+            if 'stream_mask_at_utc' not in step['function']]
     except KeyError:
         pass
     return coc
-- 
2.43.0


From f5b3fa4ff8eea228a3d11c1c77f99d634164fac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:58 +0000
Subject: [PATCH 17/66] fix: order station pairs by whole network, station and
 channel codes

---
 src/seismic/correlate/correlate.py | 4 ++--
 src/seismic/correlate/stream.py    | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/seismic/correlate/correlate.py b/src/seismic/correlate/correlate.py
index 6b3f2fa..194180e 100644
--- a/src/seismic/correlate/correlate.py
+++ b/src/seismic/correlate/correlate.py
@@ -1233,8 +1233,8 @@ def sort_comb_name_alphabetically(
     if not all([isinstance(arg, str) for arg in [
             network1, network2, station1, station2]]):
         raise TypeError('All arguments have to be strings.')
-    sort1 = network1 + station1 + channel1
-    sort2 = network2 + station2 + channel2
+    sort1 = (network1, station1, channel1)
+    sort2 = (network2, station2, channel2)
     sort = [sort1, sort2]
     sorted = sort.copy()
     sorted.sort()
diff --git a/src/seismic/correlate/stream.py b/src/seismic/correlate/stream.py
index 3cfcf55..e16afc1 100644
--- a/src/seismic/correlate/stream.py
+++ b/src/seismic/correlate/stream.py
@@ -1421,8 +1421,8 @@ def alphabetical_correlation(
     """
     # make sure the order is correct
     # Will do that always alphabetically sorted
-    sort1 = header1.network + header1.station + header1.channel
-    sort2 = header2.network + header2.station + header2.channel
+    sort1 = (header1.network, header1.station, header1.channel)
+    sort2 = (header2.network, header2.station, header2.channel)
     sort = [sort1, sort2]
     sorted = sort.copy()
     sorted.sort()
-- 
2.43.0


From a690dd6cd8fb6c654e99ba9c2521ae51715f9f8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:55 +0000
Subject: [PATCH 18/66] fix: last lag of a computed correlation is one sample
 before first lag plus length

---
 src/seismic/correlate/correlate.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/seismic/correlate/correlate.py b/src/seismic/correlate/correlate.py
index 194180e..37528f5 100644
--- a/src/seismic/correlate/correlate.py
+++ b/src/seismic/correlate/correlate.py
@@ -385,7 +385,8 @@ class Correlator(object):
         if self.rank == 0:
             for ii, (startlag, comb) in enumerate(
                     zip(startlags, self.options['combinations'])):
-                endlag = startlag + len(A[ii, :])/self.options['sampling_rate']
+                endlag = startlag \
+                    + (len(A[ii, :])-1)/self.options['sampling_rate']
                 cst.append(
                     CorrTrace(
                         A[ii], header1=st[comb[0]].stats,
-- 
2.43.0


From bea80c277c5c9585b5702e7ec229f5f32563adb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:32 +0000
Subject: [PATCH 19/66] fix: first lag of a trimmed matrix is the lag of its
 first sample

---
 src/seismic/monitor/trim.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/seismic/monitor/trim.py b/src/seismic/monitor/trim.py
index b1bfedb..84940a8 100644
--- a/src/seismic/monitor/trim.py
+++ b/src/seismic/monitor/trim.py
@@ -63,6 +63,7 @@ def corr_mat_trim(
         stats['npts'] = data.shape[1]
 
     # set starttime, endtime and npts of the new stats
-    stats['start_lag'] = starttime
+    # starttime does not have to coincide with a sample
+    stats['start_lag'] = stats['start_lag'] + start/stats['sampling_rate']
 
     return data, stats
-- 
2.43.0


From 47fb25a9ca5701642a4613bb739be21950122c13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:17 +0000
Subject: [PATCH 20/66] fix: inverse transform of correlations keeps odd
 lengths

---
 src/seismic/correlate/correlate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/seismic/correlate/correlate.py b/src/seismic/correlate/correlate.py
index 37528f5..861c0ed 100644
--- a/src/seismic/correlate/correlate.py
+++ b/src/seismic/correlate/correlate.py
@@ -772,7 +772,7 @@ class Correlator(object):
             ######################################
             # frequency domain postProcessing
             #
-            tmp = np.fft.irfft(M).real
+            tmp = np.fft.irfft(M, n=zmsize[1]).real
 
             # cut the center and do fftshift
             C[ii, :] = np.concatenate(
-- 
2.43.0


From 4c56783510ba9c8fbb89cdad73e21cbc15d7400d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:22 +0000
Subject: [PATCH 21/66] fix: one-bit normalisation of spectra keeps odd lengths

---
 src/seismic/correlate/correlate.py        | 2 +-
 src/seismic/correlate/preprocessing_fd.py | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/seismic/correlate/correlate.py b/src/seismic/correlate/correlate.py
index 861c0ed..a01915e 100644
--- a/src/seismic/correlate/correlate.py
+++ b/src/seismic/correlate/correlate.py
@@ -705,7 +705,7 @@ class Correlator(object):
 
         ######################################
         # frequency domain pre-processing
-        params.update({'freqs': freqs})
+        params.update({'freqs': freqs, 'npts': zmsize[1]})
         # Here, I will have to make sure to add all the functions to the module
         for proc in corr_args['FDpreProcessing']:
 
diff --git a/src/seismic/correlate/preprocessing_fd.py b/src/seismic/correlate/preprocessing_fd.py
index f2f59d8..5a3c2ad 100644
--- a/src/seismic/correlate/preprocessing_fd.py
+++ b/src/seismic/correlate/preprocessing_fd.py
@@ -66,12 +66,13 @@ def FDsignBitNormalization(
     :type args: dictionary
     :param args: not used in this function
     :type params: dictionary
-    :param params: not used in this function
+    :param params: params['npts'] is the number of samples of the time series
 
     :rtype: numpy.ndarray
     :return: frequency transform of the 1-bit normalized data
     """
-    B = np.fft.irfft(B)
+    # the number of samples, if unknown assumed to be even
+    B = np.fft.irfft(B, n=params.get('npts'))
     # np.sign only takes the real part into account
     C = np.sign(B)
     return np.fft.rfft(C)
-- 
2.43.0


From 8a93a8516e4c074ccfcb51187741b72dc5100b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:14 +0000
Subject: [PATCH 22/66] fix: mirroring that is refused returns data and header
 unchanged

---
 src/seismic/monitor/post_corr_process.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/seismic/monitor/post_corr_process.py b/src/seismic/monitor/post_corr_process.py
index f7756cb..97bebc3 100644
--- a/src/seismic/monitor/post_corr_process.py
+++ b/src/seismic/monitor/post_corr_process.py
@@ -470,7 +470,7 @@ def corr_mat_mirror(data: np.ndarray, stats: CorrStats) -> Tuple[
         return data, stats
     if np.fmod(zero_sample, 1) != 0:
         print('need to shift for mirroring')
-        return 0
+        return data, stats
 
     # estimate size of mirrored array
     acausal_samples = int(zero_sample + 1)
-- 
2.43.0


From 11b22a0f9ec3c9395cc6f9d5f705dc73b9fec4a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:14 +0000
Subject: [PATCH 23/66] fix: zero padding with avoidWrapAround accepts a float
 sampling rate

---
 src/seismic/correlate/preprocessing_td.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/seismic/correlate/preprocessing_td.py b/src/seismic/correlate/preprocessing_td.py
index db8c092..eaef5a0 100644
--- a/src/seismic/correlate/preprocessing_td.py
+++ b/src/seismic/correlate/preprocessing_td.py
@@ -475,7 +475,7 @@ def zeroPadding(A: np.ndarray, args: dict, params: dict, axis=1) -> np.ndarray:
     if args['type'] == 'nextFastLen':
         N = next_fast_len(npts)
     elif args['type'] == 'avoidWrapAround':
-        N = npts + params['sampling_rate'] * params['lengthToSave']
+        N = int(npts + params['sampling_rate'] * params['lengthToSave'])
     elif args['type'] == 'avoidWrapFastLen':
         N = next_fast_len(int(
             npts + params['sampling_rate'] * params['lengthToSave']))
-- 
2.43.0


From e46b1c71460a5fef5195001d8d9900dae113806a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:52 +0000
Subject: [PATCH 24/66] fix: normalize records a single given time limit in its
 history

---
 src/seismic/correlate/stream.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/seismic/correlate/stream.py b/src/seismic/correlate/stream.py
index e16afc1..4419751 100644
--- a/src/seismic/correlate/stream.py
+++ b/src/seismic/correlate/stream.py
@@ -131,7 +131,7 @@ class CorrBulk(object):
         self.data = pcp.corr_mat_normalize(
             self.data, self.stats, starttime, endtime, normtype)
         proc_str = f'normalize; normtype: {normtype}'
-        if starttime is not None and endtime is not None:
+        if starttime is not None or endtime is not None:
             proc_str += f', starttime: {starttime}, endtime: {endtime}'
         self.stats.processing_bulk += [proc_str]
         return self
-- 
2.43.0


From af8b71c6f55ade1f3a11f15e513ee54feae9c986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:53 +0000
Subject: [PATCH 25/66] fix: correct_dv_shift keeps times without data
 undefined

---
 src/seismic/monitor/monitor.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/seismic/monitor/monitor.py b/src/seismic/monitor/monitor.py
index 50a2d60..770c614 100644
--- a/src/seismic/monitor/monitor.py
+++ b/src/seismic/monitor/monitor.py
@@ -881,8 +881,10 @@ def correct_dv_shift(
         raise ValueError('Method has to be either mean or median')
     roll = int(round(-shift/(dv0.second_axis[1]-dv0.second_axis[0])))
     dv0.sim_mat = np.roll(dv0.sim_mat, (roll, 0))
-    dv0.value = dv0.second_axis[
+    value = dv0.second_axis[
         np.nanargmax(np.nan_to_num(dv0.sim_mat), axis=1)]
+    # times without data remain without value
+    dv0.value = np.where(np.isnan(dv0.corr), np.nan, value)
     return dv0, dv1
 
 
-- 
2.43.0


From 2298f0aa2e549f6021e425f7927493dc3a106081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:53 +0000
Subject: [PATCH 26/66] fix: smoothing the similarity keeps times without data
 undefined

---
 src/seismic/monitor/dv.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/seismic/monitor/dv.py b/src/seismic/monitor/dv.py
index 72dd140..a546682 100644
--- a/src/seismic/monitor/dv.py
+++ b/src/seismic/monitor/dv.py
@@ -217,8 +217,11 @@ class DV(object):
 
         # Compute the dependencies again
         self.corr = np.nanmax(self.sim_mat, axis=1)
-        self.value = self.second_axis[
+        value = self.second_axis[
             np.argmax(np.nan_to_num(self.sim_mat), axis=1)]
+        # times without data remain without value
+        self.value = np.where(np.isnan(self.corr), np.nan, value)
+        self.avail = ~np.isnan(self.corr)
         return self
 
 
-- 
2.43.0


From 3d2a570dedffb64d4500dc9760e82fb93b2177dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:53 +0000
Subject: [PATCH 27/66] fix: aligned multi-reference values are undefined
 without data

---
 src/seismic/monitor/stretch_mod.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/seismic/monitor/stretch_mod.py b/src/seismic/monitor/stretch_mod.py
index a8a97fb..43ce5a6 100644
--- a/src/seismic/monitor/stretch_mod.py
+++ b/src/seismic/monitor/stretch_mod.py
@@ -840,6 +840,9 @@ def estimate_reftr_shifts_from_dt_corr(
         except Exception:
             pass
 
+        # no value where none of the references yields a similarity
+        dt = np.where(np.isnan(corr), np.nan, dt)
+
         ret_dict = {'corr': corr,
                     'value': dt,
                     'second_axis': stretch_vect,
-- 
2.43.0


From aaf20da1785e55237c7c705c3c8e2479eee43cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:04 +0000
Subject: [PATCH 28/66] fix: masked samples do not enter the correlation

---
 src/seismic/correlate/correlate.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/seismic/correlate/correlate.py b/src/seismic/correlate/correlate.py
index a01915e..f4450f5 100644
--- a/src/seismic/correlate/correlate.py
+++ b/src/seismic/correlate/correlate.py
@@ -810,6 +810,8 @@ def st_to_np_array(st: Stream, npts: int) -> Tuple[np.ndarray, Stream]:
     A = np.zeros((st.count(), npts), dtype=np.float32)
     for ii, tr in enumerate(st):
         A[ii, :tr.stats.npts] = tr.data
+        # the values below a mask are arbitrary
+        A[ii, :tr.stats.npts][np.ma.getmaskarray(tr.data)] = np.nan
         del tr.data  # Not needed any more, just uses up RAM
     return A, st
 
-- 
2.43.0


From 78e6ca0a3dbb1845fa8d8bed809140f129e32a4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:12 +0000
Subject: [PATCH 29/66] fix: detrend with method scipy no longer hands the
 method on to scipy

---
 src/seismic/correlate/preprocessing_td.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/seismic/correlate/preprocessing_td.py b/src/seismic/correlate/preprocessing_td.py
index eaef5a0..29fb85d 100644
--- a/src/seismic/correlate/preprocessing_td.py
+++ b/src/seismic/correlate/preprocessing_td.py
@@ -89,6 +89,8 @@ def detrend_scipy(A: np.ndarray, args: dict, params: dict) -> np.ndarray:
 
     .. seealso:: :func:`scipy.signal.detrend` for input arguments
     """
+    # the method was evaluated by detrend already
+    args = {k: v for k, v in args.items() if k != 'method'}
     if np.all(np.isnan(A)):
         return A
     for ii in range(A.shape[0]):
-- 
2.43.0


From 9015d79f236114bdd152dca5c2b8f0fe0c2600d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:12 +0000
Subject: [PATCH 30/66] fix: refuse unknown stacking weights instead of
 returning None

---
 src/seismic/correlate/stream.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/seismic/correlate/stream.py b/src/seismic/correlate/stream.py
index 4419751..f5fbc0a 100644
--- a/src/seismic/correlate/stream.py
+++ b/src/seismic/correlate/stream.py
@@ -1644,6 +1644,8 @@ def stack_st(st: CorrStream, weight: str, norm: bool = True) -> CorrTrace:
             norm = np.nanmax(np.abs(data))
             data /= norm  # np.tile(np.atleast_2d(norm).T, (1, A.shape[1]))
         return CorrTrace(data=data, _header=stats)
+    raise ValueError(
+        "weight has to be 'mean', 'average' or 'by_length', not %s." % weight)
 
 
 def convert_statlist_to_bulk_stats(
-- 
2.43.0


From 6373fa108584b6e11ca2b4d8618d318aae9eaaa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:12 +0000
Subject: [PATCH 31/66] fix: refuse unknown shift correction methods instead of
 only warning

---
 src/seismic/monitor/monitor.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/seismic/monitor/monitor.py b/src/seismic/monitor/monitor.py
index 770c614..88e9f01 100644
--- a/src/seismic/monitor/monitor.py
+++ b/src/seismic/monitor/monitor.py
@@ -908,6 +908,8 @@ def correct_time_shift_several(dvs: List[DV], method: str, n_overlap: int):
         the shift.
     :type n_overlap: int
     """
+    if method not in ('mean', 'median'):
+        raise ValueError('Method has to be either mean or median')
     # If three different time-series are provided, find the one that
     # spans the middle time
     avl = np.array([
-- 
2.43.0


From ca98e6fbeb76e2f8f003147c8fd89ca609ac514c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:12 +0000
Subject: [PATCH 32/66] fix: refuse unknown plot types when sorting by distance

---
 src/seismic/plot/plot_correlation.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/seismic/plot/plot_correlation.py b/src/seismic/plot/plot_correlation.py
index 6a0a335..2441ae3 100644
--- a/src/seismic/plot/plot_correlation.py
+++ b/src/seismic/plot/plot_correlation.py
@@ -173,6 +173,9 @@ def plot_cst(
         elif type == 'heatmap':
             times = heat_plot_corr_dist(
                 cst, ax, cmap=cmap, vmin=vmin, vmax=vmax, **kwargs)
+        else:
+            raise NotImplementedError(
+                'Unknown or not implemented plot type %s.' % type)
     else:
         raise NotImplementedError('Unknown sorting method %s.' % sort_by)
 
-- 
2.43.0


From 149a61df3775fafc1d7cb30ec23646b19910d7f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:11 +0000
Subject: [PATCH 33/66] fix: normalise correlations with the true record length
 for odd lengths

---
 src/seismic/correlate/correlate.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/seismic/correlate/correlate.py b/src/seismic/correlate/correlate.py
index f4450f5..fbd24ef 100644
--- a/src/seismic/correlate/correlate.py
+++ b/src/seismic/correlate/correlate.py
@@ -722,7 +722,6 @@ class Correlator(object):
         ######################################
         # correlation
         csize = len(self.options['combinations'])
-        irfftsize = (fftsize-1)*2
         sampleToSave = int(
             np.ceil(
                 corr_args['lengthToSave'] * self.sampling_rate))
@@ -760,7 +759,7 @@ class Correlator(object):
                             'combinations'][ii][1], :]
                             * B[self.options['combinations'][ii][1], :].conj())
                         - B[self.options['combinations'][ii][1], 0]**2)
-                    / irfftsize).real
+                    / zmsize[1]).real
             else:
                 norm = 1.
 
-- 
2.43.0


From 9eabd3f10c4e4a7e8c722d01a8d9d3b12e0fde49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:46 +0000
Subject: [PATCH 34/66] fix: one unreadable correlation file does not stop the
 whole monitoring run

---
 src/seismic/monitor/monitor.py | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/seismic/monitor/monitor.py b/src/seismic/monitor/monitor.py
index 88e9f01..e024ab5 100644
--- a/src/seismic/monitor/monitor.py
+++ b/src/seismic/monitor/monitor.py
@@ -340,10 +340,14 @@ class Monitor(object):
         if self.rank == 0:
             plist = []
             for f, n, s in zip(self.infiles, self.netlist, self.statlist):
-                with CorrelationDataBase(f, mode='r') as cdb:
-                    ch = cdb.get_available_channels(
-                        tag, n, s)
-                    plist.extend([f, n, s, c] for c in ch)
+                try:
+                    with CorrelationDataBase(f, mode='r') as cdb:
+                        ch = cdb.get_available_channels(
+                            tag, n, s)
+                except Exception as e:
+                    self.logger.exception(f'{e} for file {f}. Skipping...')
+                    continue
+                plist.extend([f, n, s, c] for c in ch)
         else:
             plist = None
         plist = self.comm.bcast(plist, root=0)
@@ -498,10 +502,14 @@ class Monitor(object):
         if self.rank == 0:
             plist = []
             for f, n, s in zip(self.infiles, self.netlist, self.statlist):
-                with CorrelationDataBase(f, mode='r') as cdb:
-                    ch = cdb.get_available_channels(
-                        tag, n, s)
-                    plist.extend([f, n, s, c] for c in ch)
+                try:
+                    with CorrelationDataBase(f, mode='r') as cdb:
+                        ch = cdb.get_available_channels(
+                            tag, n, s)
+                except Exception as e:
+                    self.logger.exception(f'{e} for file {f}. Skipping...')
+                    continue
+                plist.extend([f, n, s, c] for c in ch)
         else:
             plist = None
         plist = self.comm.bcast(plist, root=0)
-- 
2.43.0


From eb9540ce72758c9a8abe4efbc7ace502a0f08cf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:46 +0000
Subject: [PATCH 35/66] fix: one failing channel does not stop the waveform
 coherence run

---
 src/seismic/monitor/monitor.py | 33 +++++++++++++++++++--------------
 1 file changed, 19 insertions(+), 14 deletions(-)

diff --git a/src/seismic/monitor/monitor.py b/src/seismic/monitor/monitor.py
index e024ab5..bc5a08a 100644
--- a/src/seismic/monitor/monitor.py
+++ b/src/seismic/monitor/monitor.py
@@ -522,12 +522,12 @@ class Monitor(object):
         wfcl = []
         for ii in tqdm(ind):
             corr_file, net, stat, cha = plist[ii]
-            for wfc in self.compute_waveform_coherence(
-                    corr_file, tag, net, stat, cha):
-                try:
+            try:
+                for wfc in self.compute_waveform_coherence(
+                        corr_file, tag, net, stat, cha):
                     wfcl.append(wfc)
-                except Exception as e:
-                    self.logger.exception(e)
+            except Exception as e:
+                self.logger.exception(f'{e} for file {corr_file}.')
 
         outdir = os.path.join(
             self.options['proj_dir'], self.options['wfc']['subdir'])
@@ -563,15 +563,20 @@ class Monitor(object):
                         wfc.wfc_processing['tw_len'] == tw_len
                     ])])
         for wfc_avl in wfcl_sub:
-            wfc = average_components_wfc(wfc_avl)
-            # Write files
-            outf = os.path.join(outdir, 'WFC-%s.%s.%s.f%a-%a.tw%a-%a' % (
-                wfc.stats.network, wfc.stats.station, wfc.stats.channel,
-                wfc.wfc_processing['freq_min'],
-                wfc.wfc_processing['freq_max'],
-                wfc.wfc_processing['tw_start'],
-                wfc.wfc_processing['tw_len']))
-            wfc.save(outf)
+            try:
+                wfc = average_components_wfc(wfc_avl)
+                # Write files
+                outf = os.path.join(outdir, 'WFC-%s.%s.%s.f%a-%a.tw%a-%a' % (
+                    wfc.stats.network, wfc.stats.station, wfc.stats.channel,
+                    wfc.wfc_processing['freq_min'],
+                    wfc.wfc_processing['freq_max'],
+                    wfc.wfc_processing['tw_start'],
+                    wfc.wfc_processing['tw_len']))
+                wfc.save(outf)
+            except Exception as e:
+                self.logger.exception(
+                    f'{e} while averaging the components of '
+                    f'{wfc_avl[0].stats.network}.{wfc_avl[0].stats.station}.')
 
     def compute_waveform_coherence(
         self, corr_file: str, tag: str, network: str, station: str,
-- 
2.43.0


From 4752843371e6ecddb209fad4a194ec4cef62dfa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:46 +0000
Subject: [PATCH 36/66] fix: one group that cannot be averaged does not stop
 the others

---
 src/seismic/monitor/monitor.py | 33 +++++++++++++++++++--------------
 1 file changed, 19 insertions(+), 14 deletions(-)

diff --git a/src/seismic/monitor/monitor.py b/src/seismic/monitor/monitor.py
index bc5a08a..e7342ce 100644
--- a/src/seismic/monitor/monitor.py
+++ b/src/seismic/monitor/monitor.py
@@ -470,20 +470,25 @@ class Monitor(object):
                     % (dvs[0].stats.channel, dvs[0].stats.network,
                         dvs[0].stats.station))
                 continue
-            dv_av = average_components(dvs)
-            outf = os.path.join(
-                self.outdir, 'DV-%s.%s.%s' % (
-                    dv_av.stats.network, dv_av.stats.station, ch))
-            dv_av.save(outf)
-            if self.options['dv']['plot_vel_change']:
-                # plot if desired
-                fname = '%s_%s_%s' % (
-                    dv_av.stats.network, dv_av.stats.station, ch)
-                savedir = os.path.join(
-                    self.options['proj_dir'], self.options['fig_subdir'])
-                dv_av.plot(
-                    save_dir=savedir, figure_file_name=fname,
-                    normalize_simmat=True, sim_mat_Clim=[-1, 1])
+            try:
+                dv_av = average_components(dvs)
+                outf = os.path.join(
+                    self.outdir, 'DV-%s.%s.%s' % (
+                        dv_av.stats.network, dv_av.stats.station, ch))
+                dv_av.save(outf)
+                if self.options['dv']['plot_vel_change']:
+                    # plot if desired
+                    fname = '%s_%s_%s' % (
+                        dv_av.stats.network, dv_av.stats.station, ch)
+                    savedir = os.path.join(
+                        self.options['proj_dir'], self.options['fig_subdir'])
+                    dv_av.plot(
+                        save_dir=savedir, figure_file_name=fname,
+                        normalize_simmat=True, sim_mat_Clim=[-1, 1])
+            except Exception:
+                self.logger.exception(
+                    'Averaging the components failed for '
+                    f'{dvs[0].stats.network}.{dvs[0].stats.station}.')
 
     def compute_waveform_coherence_bulk(self):
         """
-- 
2.43.0


From 88c738d1e9baa805c7ef97b59e92d5c3b38f95ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:46 +0000
Subject: [PATCH 37/66] fix: a corrupt file is skipped instead of plotting the
 previous one again

---
 src/seismic/plot/plot_multidv.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/seismic/plot/plot_multidv.py b/src/seismic/plot/plot_multidv.py
index fc86762..734251a 100644
--- a/src/seismic/plot/plot_multidv.py
+++ b/src/seismic/plot/plot_multidv.py
@@ -85,6 +85,7 @@ def plot_multiple_dv(
             dv = read_dv(fi)
         except Exception:
             warn('Corrupt file %s discovered...skipping.' % fi)
+            continue
         val = -dv.value
         if plt_abs:
             val = abs(val)
-- 
2.43.0


From 5e3771b31310812cb66f9d3162f8e1d5e3b8228c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:50 +0000
Subject: [PATCH 38/66] fix: reading several velocity changes skips every file
 that cannot be read

---
 src/seismic/monitor/dv.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/seismic/monitor/dv.py b/src/seismic/monitor/dv.py
index a546682..9b0194c 100644
--- a/src/seismic/monitor/dv.py
+++ b/src/seismic/monitor/dv.py
@@ -15,7 +15,6 @@ from datetime import datetime
 from glob import glob
 from typing import List, Tuple, Optional
 import warnings
-from zipfile import BadZipFile
 
 import matplotlib.pyplot as plt
 import numpy as np
@@ -239,7 +238,7 @@ def read_dv(path: str) -> DV:
         for p in glob(path):
             try:
                 dvl.append(read_dv(p))
-            except BadZipFile:
+            except Exception:
                 warnings.warn(f'File {p} corrupt, skipping..')
         if not len(dvl):
             raise FileNotFoundError(
-- 
2.43.0


From 76066eaad0246380933067036cb72d6eeb3262ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:01 +0000
Subject: [PATCH 39/66] fix: mask intervals that enclose the trace or touch its
 first or last sample

---
 src/seismic/correlate/preprocessing_stream.py | 27 +++----------------
 1 file changed, 3 insertions(+), 24 deletions(-)

diff --git a/src/seismic/correlate/preprocessing_stream.py b/src/seismic/correlate/preprocessing_stream.py
index 6ff6051..7a33b24 100644
--- a/src/seismic/correlate/preprocessing_stream.py
+++ b/src/seismic/correlate/preprocessing_stream.py
@@ -265,40 +265,19 @@ def trace_mask_at_utc(
     """
     start = tr.stats.starttime
     end = tr.stats.endtime
-    # starts in trace
-    ii = (starts < end) * (starts > start)
-    # ends in trace
-    jj = (ends < end) * (ends > start)
-
     mask = np.zeros(tr.data.shape, dtype=bool)
 
-    # masks that are completlely in trace
-    kk = jj*ii
+    # masks that have at least one sample in the trace
+    kk = (starts <= end) * (ends >= start)
     for s, e in zip(starts[kk], ends[kk]):
         # Find start-index in trace
         t = s-start
-        ns = int(np.floor(tr.stats.sampling_rate*t))
+        ns = max(int(np.floor(tr.stats.sampling_rate*t)), 0)
         # find stop index
         t = e-start
         ne = int(np.ceil(tr.stats.sampling_rate*t))+1
         mask[ns:ne] = True
 
-    # only start of mask in trace
-    ll = ii * ~jj
-    for s in starts[ll]:
-        # Find start-index in trace
-        t = s-start
-        ns = int(np.floor(tr.stats.sampling_rate*t))
-        mask[ns:] = True
-
-    # only end of mask in trace
-    ll = ~ii * jj
-    for e in ends[ll]:
-        # Find start-index in trace
-        t = e-start
-        ne = int(np.ceil(tr.stats.sampling_rate*t))+1
-        mask[:ne] = True
-
     if reverse:
         mask = ~mask
     # Mask the array
-- 
2.43.0


From 2d992c758b8f4a171ac5d621c87f95fb5ea03e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:57 +0000
Subject: [PATCH 40/66] fix: averaging correlations in time left the trace
 count and the locations of the old matrix in the header

---
 src/seismic/monitor/post_corr_process.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/seismic/monitor/post_corr_process.py b/src/seismic/monitor/post_corr_process.py
index 97bebc3..ba3b048 100644
--- a/src/seismic/monitor/post_corr_process.py
+++ b/src/seismic/monitor/post_corr_process.py
@@ -283,6 +283,11 @@ def corr_mat_resample(
     nmat = np.empty([len(stime), data.shape[1]])
     nmat.fill(np.nan)
 
+    # header entries with one value per correlation
+    per_trace = {
+        key: [] for key in ('location', 'channel')
+        if isinstance(stats.get(key), list) and len(stats[key])}
+
     for ii in range(len(stime)):
         # index of measurements between start_time[ii] and end_time[ii]
         ind = np.nonzero((otime >= stime[ii]) * (otime < etime[ii]))
@@ -293,12 +298,20 @@ def corr_mat_resample(
         elif len(ind[0]) > 1:
             # more than one measurement in range
             nmat[ii, :] = np.mean(mm[ind[0], :], axis=0).filled(np.nan)
+        # the first correlation in the window is the one to describe it
+        first = ind[0][0] if len(ind[0]) else 0
+        for key, values in per_trace.items():
+            values.append(stats[key][first])
 
     # assign new data
     data = nmat
 
     stats['corr_start'] = [UTCDateTime(st) for st in stime]
     stats['corr_end'] = [UTCDateTime(et) for et in etime]
+    for key, values in per_trace.items():
+        stats[key] = values
+    if 'ntrcs' in stats:
+        stats['ntrcs'] = len(stime)
 
     return data, stats
 
-- 
2.43.0


From a7f3a45db09b05508aaf19476c740a8041b2364c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:57 +0000
Subject: [PATCH 41/66] fix: time_stretch_apply stretched in the opposite
 direction of time_stretch_estimate

---
 src/seismic/monitor/stretch_mod.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/seismic/monitor/stretch_mod.py b/src/seismic/monitor/stretch_mod.py
index 43ce5a6..fb7e7b3 100644
--- a/src/seismic/monitor/stretch_mod.py
+++ b/src/seismic/monitor/stretch_mod.py
@@ -1217,8 +1217,7 @@ def time_stretch_apply(
     # stretch every line
     for (ii, line) in enumerate(mat):
         s = UnivariateSpline(time_idx, line, s=0)
-        stretched_mat[ii, :] = s(time_idx * (1 + stretch[ii]))
-        stretched_mat[ii, :] = s(time_idx * np.exp(stretch[ii]))
+        stretched_mat[ii, :] = s(time_idx * np.exp(-stretch[ii]))
 
     return stretched_mat
 
-- 
2.43.0


From a40d9fb53d043c7526162bc97a2dbe054e4cdaea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:02 +0000
Subject: [PATCH 42/66] fix: reference of the memory-saving average is the
 first dv that is used

---
 src/seismic/monitor/monitor.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/seismic/monitor/monitor.py b/src/seismic/monitor/monitor.py
index e7342ce..abc207c 100644
--- a/src/seismic/monitor/monitor.py
+++ b/src/seismic/monitor/monitor.py
@@ -979,8 +979,11 @@ def average_components_mem_save(
     statsl = []
     corrs = []
     stretches = []
-    for ii, dv in enumerate(dvs):
-        if ii == 0:
+    for dv in dvs:
+        if 'av' in dv.stats.channel+dv.stats.network+dv.stats.station:
+            warnings.warn('Averaging of averaged dvs not allowed. Skipping dv')
+            continue
+        if not len(statsl):
             sim_mat_sum = np.zeros_like(dv.sim_mat)
             n_stat = np.zeros_like(dv.corr)
 
@@ -991,9 +994,6 @@ def average_components_mem_save(
             dv_processing = dv.dv_processing
         if dv.method != method:
             raise TypeError('DV has to be computed with the same method.')
-        if 'av' in dv.stats.channel+dv.stats.network+dv.stats.station:
-            warnings.warn('Averaging of averaged dvs not allowed. Skipping dv')
-            continue
         if dv.sim_mat.shape != sim_mat_sum.shape or any(
                 dv.second_axis != strvec):
             warnings.warn(
@@ -1009,6 +1009,8 @@ def average_components_mem_save(
             corrs.append(dv.corr)
             stretches.append(dv.value)
         statsl.append(dv.stats)
+    if not len(statsl):
+        raise ValueError('No dvs left to average.')
     # Now inf where it was nan before
     av_sim_mat = (sim_mat_sum.T/n_stat).T
     av_sim_mat[np.isinf(av_sim_mat)] = np.nan
-- 
2.43.0


From b31f720d741ddbf1aebef778cb2b837c25128e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:02 +0000
Subject: [PATCH 43/66] fix: compare dvs with the first one that is used when
 averaging

---
 src/seismic/monitor/monitor.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/seismic/monitor/monitor.py b/src/seismic/monitor/monitor.py
index abc207c..b3cd632 100644
--- a/src/seismic/monitor/monitor.py
+++ b/src/seismic/monitor/monitor.py
@@ -1069,13 +1069,15 @@ def average_components(
     """
     dv_use = []
     for dv in dvs:
-        if dv.method != dvs[0].method:
-            raise TypeError('DV has to be computed with the same method.')
         if 'av' in dv.stats.channel+dv.stats.network+dv.stats.station:
             warnings.warn('Averaging of averaged dvs not allowed. Skipping dv')
             continue
-        if dv.sim_mat.shape != dvs[0].sim_mat.shape or any(
-                dv.second_axis != dvs[0].second_axis):
+        # the first dv that is used is what the others have to agree with
+        dv0 = dv_use[0] if len(dv_use) else dv
+        if dv.method != dv0.method:
+            raise TypeError('DV has to be computed with the same method.')
+        if dv.sim_mat.shape != dv0.sim_mat.shape or any(
+                dv.second_axis != dv0.second_axis):
             warnings.warn(
                 'The shapes of the similarity matrices of the input DVs '
                 + 'vary. Make sure to compute the dvs with the same parameters'
@@ -1084,6 +1086,8 @@ def average_components(
             )
             continue
         dv_use.append(dv)
+    if not len(dv_use):
+        raise ValueError('No dvs left to average.')
     # Correct shift
     if correct_shift:
         correct_time_shift_several(
-- 
2.43.0


From 8acc541416832ed51e36d1b979cdc75b80adf8b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:02 +0000
Subject: [PATCH 44/66] fix: apply the station list also after a network list
 matched

---
 src/seismic/monitor/monitor.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/seismic/monitor/monitor.py b/src/seismic/monitor/monitor.py
index b3cd632..14c8ae8 100644
--- a/src/seismic/monitor/monitor.py
+++ b/src/seismic/monitor/monitor.py
@@ -806,6 +806,7 @@ def corr_find_filter(
             continue
         elif isinstance(net['station'], list):
             # account for the case of wildcards in the station list
+            matched = False
             for s in net['station']:
                 if fnmatch.filter(ssplit, s) == ssplit:
                     matched = True
-- 
2.43.0


From c680d895a745c0aa186b20d89fccc72ff9e8b51c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:02 +0000
Subject: [PATCH 45/66] fix: group dv files by their station codes, not by a
 common prefix

---
 src/seismic/monitor/monitor.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/seismic/monitor/monitor.py b/src/seismic/monitor/monitor.py
index 14c8ae8..5fec2b4 100644
--- a/src/seismic/monitor/monitor.py
+++ b/src/seismic/monitor/monitor.py
@@ -405,11 +405,14 @@ class Monitor(object):
             ch = 'av'
         while len(infiles):
             # Find files belonging to same station
-            pat = '.'.join(infiles[0].split('.')[:-2]) + '*'
-            filtfil = fnmatch.filter(infiles, pat)
+            stat_id = os.path.basename(infiles[0]).split('.')[:-2]
+            filtfil = [
+                f for f in infiles
+                if os.path.basename(f).split('.')[:-2] == stat_id]
             fffil = []  # Second filter
             for f in filtfil:
-                if ch in f.split('.'):
+                fsplit = os.path.basename(f).split('.')
+                if ch in fsplit:
                     # Is already computed for this station
                     # So let's remove all of them from the initial list
                     for ff in filtfil:
@@ -423,12 +426,12 @@ class Monitor(object):
                     fffil.clear()
                     self.logger.debug('Skipping already averaged dv...%s' % f)
                     break
-                elif 'av' in f:
+                elif 'av' in os.path.basename(f):
                     # computed by another averaging method
                     infiles.remove(f)
                     continue
-                components = f.split('.')[-2].split('-')
-                stations = f.split('.')[-3].split('-')
+                components = fsplit[-2].split('-')
+                stations = fsplit[-3].split('-')
                 if method.lower() == 'autocomponents':
                     # Remove those from combined channels
                     if components[0] != components[1] \
@@ -438,7 +441,7 @@ class Monitor(object):
                 elif method.lower() in (
                         'betweencomponents', 'crosscomponents'):
                     # Remove those from equal channels
-                    components = f.split('.')[-2].split('-')
+                    components = fsplit[-2].split('-')
                     if components[0] == components[1] \
                             or stations[0] != stations[1]:
                         infiles.remove(f)
-- 
2.43.0


From 24e795709d9bcc0490bed0d9624d4899bad604bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:02 +0000
Subject: [PATCH 46/66] fix: never average averaged wfcs again

---
 src/seismic/monitor/monitor.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/seismic/monitor/monitor.py b/src/seismic/monitor/monitor.py
index 5fec2b4..8c12f18 100644
--- a/src/seismic/monitor/monitor.py
+++ b/src/seismic/monitor/monitor.py
@@ -1196,6 +1196,16 @@ def average_components_wfc(wfcs: List[WFC]) -> WFC:
     :return: A single dv with an averaged similarity matrix
     :rtype: DV
     """
+    wfc_use = []
+    for wfc in wfcs:
+        if 'av' in wfc.stats.channel+wfc.stats.network+wfc.stats.station:
+            warnings.warn(
+                'Averaging of averaged wfcs not allowed. Skipping wfc')
+            continue
+        wfc_use.append(wfc)
+    if not len(wfc_use):
+        raise ValueError('No wfcs left to average.')
+    wfcs = wfc_use
     stats = deepcopy(wfcs[0].stats)
     wfcp = wfcs[0].wfc_processing
     stats['channel'] = 'av'
-- 
2.43.0


From 1b72581b3effb43f881ac4f547219a76ef907cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:08 +0000
Subject: [PATCH 47/66] fix: stack up to the end of the last correlation

---
 src/seismic/correlate/stream.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/seismic/correlate/stream.py b/src/seismic/correlate/stream.py
index f5fbc0a..aaf1cf9 100644
--- a/src/seismic/correlate/stream.py
+++ b/src/seismic/correlate/stream.py
@@ -1226,7 +1226,7 @@ class CorrStream(Stream):
         if not starttime:
             starttime = self[0].stats.corr_start
         if not endtime:
-            endtime = self[-1].stats.corr_end
+            endtime = max(tr.stats.corr_end for tr in self)
         outst = CorrStream()
         if stack_len == 'daily':
             starttime = UTCDateTime(
-- 
2.43.0


From 7ebd9134740f53ab319538ce8d7c081e000471be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:08 +0000
Subject: [PATCH 48/66] fix: stack only traces of equal length and sampling,
 describe exactly those in the header

---
 src/seismic/correlate/stream.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/seismic/correlate/stream.py b/src/seismic/correlate/stream.py
index aaf1cf9..8f9e3e2 100644
--- a/src/seismic/correlate/stream.py
+++ b/src/seismic/correlate/stream.py
@@ -1620,14 +1620,16 @@ def stack_st(st: CorrStream, weight: str, norm: bool = True) -> CorrTrace:
     :return: Single trace with stacked data
     :rtype: CorrTrace
     """
+    # Only traces with equal length and sampling can be stacked
+    st.sort(keys=['npts'])
+    st = st.select(npts=st[-1].stats.npts)
     st.sort(keys=['corr_start'])
+    st = st.select(sampling_rate=st[0].stats.sampling_rate)
     stats = st[0].stats.copy()
-    stats['corr_end'] = st[-1].stats['corr_end']
-    st.sort(keys=['npts'])
-    npts = st[-1].stats.npts
+    stats['corr_end'] = max(tr.stats.corr_end for tr in st)
     stack = []
     dur = []  # duration of each trace
-    for tr in st.select(npts=npts):
+    for tr in st:
         stack.append(tr.data)
         dur.append(tr.stats.corr_end-tr.stats.corr_start)
     A = np.array(stack)
-- 
2.43.0


From 292a77285e8c12dafcdfdebbc74948304271b8b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:52 +0000
Subject: [PATCH 49/66] fix: correlate only the requested station pairs

A requested combination without channels also selected pairs of stations
whose codes begin like it (A-A.S1-S2 selected A-A.S1-S20).
---
 src/seismic/correlate/correlate.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/seismic/correlate/correlate.py b/src/seismic/correlate/correlate.py
index fbd24ef..0fb3ed9 100644
--- a/src/seismic/correlate/correlate.py
+++ b/src/seismic/correlate/correlate.py
@@ -854,9 +854,11 @@ def is_in_xcombis(id1: str, id2: str, rcombis: List[str] = None) -> bool:
     tcombi = f'{n1}-{n2}.{s1}-{s2}.{c1}-{c2}'
     tcombi2 = f'{n2}-{n1}.{s2}-{s1}.{c2}-{c1}'
     for combi in rcombis:
-        if fnmatch.fnmatch(tcombi, combi+'*') or fnmatch.fnmatch(
-                tcombi2, combi+'*'):
-            return True
+        # Channel information can be omitted
+        for pattern in (combi, combi+'.*'):
+            if fnmatch.fnmatch(tcombi, pattern) or fnmatch.fnmatch(
+                    tcombi2, pattern):
+                return True
     return False
 
 
-- 
2.43.0


From 39017389486dda37f30d15939b3ee39ee7e91aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:10 +0000
Subject: [PATCH 50/66] fix: find existing correlations of every requested
 combination

Requested combinations with channels, with wildcards, or with the two
stations in the other order were correlated, but their existing
correlations were not found when a run was resumed.
---
 src/seismic/correlate/correlate.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/seismic/correlate/correlate.py b/src/seismic/correlate/correlate.py
index 0fb3ed9..64c11db 100644
--- a/src/seismic/correlate/correlate.py
+++ b/src/seismic/correlate/correlate.py
@@ -1288,10 +1288,11 @@ def compute_network_station_combinations(
                 if n != n2 or s != s2:
                     nc, sc, _ = sort_comb_name_alphabetically(n, s, n2, s2)
                     # Check requested combinations
-                    if (
-                        combis is not None
-                        and f'{nc[0]}-{nc[1]}.{sc[0]}-{sc[1]}' not in combis
-                    ):
+                    if combis is not None and not any(
+                            is_in_xcombis(
+                                f'{n}.{s}..', f'{n2}.{s2}..',
+                                ['.'.join(c.split('.')[:2])])
+                            for c in combis):
                         continue
                     netcombs.append('%s-%s' % (nc[0], nc[1]))
                     statcombs.append('%s-%s' % (sc[0], sc[1]))
-- 
2.43.0


From 9e5869af92e44bb0acd3ed5540ba6f533e99fb31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:10 +0000
Subject: [PATCH 51/66] fix: find existing correlations in all files of a
 station pair

If a channel combination is in several files (computed with and without
save_comps_separately), only the times of the last one were found.
---
 src/seismic/correlate/correlate.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/seismic/correlate/correlate.py b/src/seismic/correlate/correlate.py
index 64c11db..7e3d243 100644
--- a/src/seismic/correlate/correlate.py
+++ b/src/seismic/correlate/correlate.py
@@ -304,8 +304,11 @@ class Correlator(object):
                 with CorrelationDataBase(
                     outf, corr_options=self.options, mode='r',
                         _force=self._allow_different_params) as cdb:
-                    d.update(
-                        cdb.get_available_starttimes(nc, sc, tag, channel))
+                    available = cdb.get_available_starttimes(
+                        nc, sc, tag, channel)
+                # The times of one channel can be spread over several files
+                for cha, times in available.items():
+                    d[cha] = d.get(cha, []) + times
             s0, s1 = sc.split('-')
             n0, n1 = nc.split('-')
             ex_dict.setdefault('%s.%s' % (n0, s0), {})
-- 
2.43.0


From b6727a301ff36badfd53a846f400290100ec660e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:10 +0000
Subject: [PATCH 52/66] fix: never delete the subdivision if there is no stack

With delete_subdivision=True and recombine_subdivision=False everything
was computed and nothing written.
---
 src/seismic/correlate/correlate.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/seismic/correlate/correlate.py b/src/seismic/correlate/correlate.py
index 7e3d243..538cac3 100644
--- a/src/seismic/correlate/correlate.py
+++ b/src/seismic/correlate/correlate.py
@@ -441,7 +441,8 @@ class Correlator(object):
                 stacktag = 'stack_%s' % str(self.options['read_len'])
             else:
                 stack = None
-            if self.options['subdivision']['delete_subdivision']:
+            if stack is not None and self.options['subdivision'][
+                    'delete_subdivision']:
                 cstselect.clear()
             with CorrelationDataBase(
                 outf, corr_options=self.options,
-- 
2.43.0


From 9a5a8f60030067ffb088f5070d0dcd8c4df55f17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:21 +0000
Subject: [PATCH 53/66] fix: stack the correlations of one read window

The correlations of the first window of a read interval were written, and
stacked, with those of the previous interval.
---
 src/seismic/correlate/correlate.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/seismic/correlate/correlate.py b/src/seismic/correlate/correlate.py
index 538cac3..6519c94 100644
--- a/src/seismic/correlate/correlate.py
+++ b/src/seismic/correlate/correlate.py
@@ -342,7 +342,7 @@ class Correlator(object):
         inv = self.comm.bcast(inv, root=0)
 
         for st, write_flag in self._generate_data():
-            cst.extend(self._pxcorr_inner(st, inv))
+            # the first window of a new read_len, write the previous ones
             if write_flag:
                 self.logger.debug('Writing Correlations to file.')
                 # Here, we can recombine the correlations for the read_len
@@ -351,6 +351,7 @@ class Correlator(object):
                 if cst.count():
                     self._write(cst)
                     cst.clear()
+            cst.extend(self._pxcorr_inner(st, inv))
 
         # write the remaining data
         if cst.count():
-- 
2.43.0


From 95b8a68476a5860cc4d4a499c8296427ca3eca12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:36 +0000
Subject: [PATCH 54/66] fix: keep the stations of requested combinations with
 channels

If a requested combination names the channels, the second station of it
was removed from the available stations and nothing was correlated.
---
 src/seismic/correlate/correlate.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/seismic/correlate/correlate.py b/src/seismic/correlate/correlate.py
index 6519c94..7c83180 100644
--- a/src/seismic/correlate/correlate.py
+++ b/src/seismic/correlate/correlate.py
@@ -223,15 +223,17 @@ class Correlator(object):
         if self.rcombis is None or self.options['combination_method'] \
                 != 'betweenStations':
             return
+        # The channels of a combination are optional
+        rcombis = ['.'.join(c.split('.')[:2]) for c in self.rcombis]
         self.station = [
             [n, s] for n, s in self.station if
-            fnmatch.filter(self.rcombis, f'{n}-*.{s}-*') or fnmatch.filter(
-                self.rcombis, f'*-{n}.*-{s}')]
+            fnmatch.filter(rcombis, f'{n}-*.{s}-*') or fnmatch.filter(
+                rcombis, f'*-{n}.*-{s}')]
         # same check for avail_raw_data
         self.avail_raw_data = [
             [n, s, c] for n, s, c in self.avail_raw_data if
-            fnmatch.filter(self.rcombis, f'{n}-*.{s}-*') or fnmatch.filter(
-                self.rcombis, f'*-{n}.*-{s}')]
+            fnmatch.filter(rcombis, f'{n}-*.{s}-*') or fnmatch.filter(
+                rcombis, f'*-{n}.*-{s}')]
 
     def find_interstat_dist(self, dis: float):
         """
-- 
2.43.0


From 17334eb1c48b66f671d0044e22a8dbc5da1689fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:23 +0000
Subject: [PATCH 55/66] fix: arrays of a velocity change are not part of its
 header

corrs, stretches and n_stat of a saved DV were also loaded as (first rows
of) header entries.
---
 src/seismic/utils/miic_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/seismic/utils/miic_utils.py b/src/seismic/utils/miic_utils.py
index 6a7fecb..ca639df 100644
--- a/src/seismic/utils/miic_utils.py
+++ b/src/seismic/utils/miic_utils.py
@@ -249,7 +249,8 @@ no_stats = [
     'data', 'tw_len', 'tw_start', 'freq_min', 'freq_max', 'aligned', 'subdir',
     'plot_vel_change', 'start_date', 'end_date', 'win_len', 'date_inc',
     'sides', 'compute_tt', 'rayleigh_wave_velocity', 'stretch_range',
-    'stretch_steps', 'dt_ref', 'preprocessing', 'postprocessing']
+    'stretch_steps', 'dt_ref', 'preprocessing', 'postprocessing', 'corrs',
+    'stretches', 'n_stat']
 
 
 def save_header_to_np_array(stats: Stats) -> dict:
-- 
2.43.0


From eaa95b7ed0cb40b94fe8279750ca7495e9ab01d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:23 +0000
Subject: [PATCH 56/66] fix: load the processing parameters as they were saved

The parameters of a DV or WFC read from disk were arrays without dimension.
---
 src/seismic/monitor/dv.py  | 7 +++++--
 src/seismic/monitor/wfc.py | 7 ++-----
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/seismic/monitor/dv.py b/src/seismic/monitor/dv.py
index 9b0194c..cc296e0 100644
--- a/src/seismic/monitor/dv.py
+++ b/src/seismic/monitor/dv.py
@@ -259,8 +259,11 @@ def read_dv(path: str) -> DV:
             freq_max=float(loaded['freq_max']),
             tw_start=float(loaded['tw_start']),
             tw_len=float(loaded['tw_len']))
-        dv_processing['sides'] = loaded.get('sides', 'unknown')
-        dv_processing['aligned'] = loaded.get('aligned', False)
+        # 0-d arrays to the kind that was saved
+        dv_processing['sides'] = np.asarray(
+            loaded.get('sides', 'unknown')).item()
+        dv_processing['aligned'] = np.asarray(
+            loaded.get('aligned', False)).item()
     except KeyError:
         dv_processing = {}
     return DV(
diff --git a/src/seismic/monitor/wfc.py b/src/seismic/monitor/wfc.py
index 9447c13..3c29ce4 100644
--- a/src/seismic/monitor/wfc.py
+++ b/src/seismic/monitor/wfc.py
@@ -157,11 +157,8 @@ def read_wfc(path: str) -> WFC:
         else:
             stats[k] = v
     wfc_processing = {
-        'tw_start': stats['tw_start'],
-        'tw_len': stats['tw_len'],
-        'freq_min': stats['freq_min'],
-        'freq_max': stats['freq_max']
-    }
+        k: np.asarray(stats[k]).item()
+        for k in ('tw_start', 'tw_len', 'freq_min', 'freq_max')}
     wfc = WFC(
         d, stats=CorrStats(mu.load_header_from_np_array(stats)),
         wfc_processing=wfc_processing)
-- 
2.43.0


From e017eed4dd9dbbe4a9d2ca5ac4395fd0dfaf973d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:23 +0000
Subject: [PATCH 57/66] fix: load a list of one time as a list

The times of results with a single correlation were loaded as single times,
over which nothing can iterate.
---
 src/seismic/utils/miic_utils.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/seismic/utils/miic_utils.py b/src/seismic/utils/miic_utils.py
index ca639df..0bd8170 100644
--- a/src/seismic/utils/miic_utils.py
+++ b/src/seismic/utils/miic_utils.py
@@ -268,6 +268,9 @@ def save_header_to_np_array(stats: Stats) -> dict:
     for k in stats:
         if k in t_keys:
             array_dict[k] = convert_utc_to_timestamp(stats[k])
+            if not isinstance(stats[k], UTCDateTime) and len(stats[k]) == 1:
+                # a list of one time, to be distinguished from a single time
+                array_dict[k] = array_dict[k][np.newaxis]
         else:
             array_dict[k] = np.array([stats[k]])
     return array_dict
@@ -288,7 +291,9 @@ def load_header_from_np_array(array_dict: dict) -> dict:
         if k in no_stats or re.match('reftr', k):
             continue
         elif k in t_keys:
-            d[k] = convert_timestamp_to_utcdt(array_dict[k])
+            d[k] = convert_timestamp_to_utcdt(np.ravel(array_dict[k]))
+            if np.ndim(array_dict[k]) > 1 and isinstance(d[k], UTCDateTime):
+                d[k] = [d[k]]
         else:
             try:
                 d[k] = array_dict[k][0]
-- 
2.43.0


From 4ac992ac86a9237e4a12dd94188e5f62cc09dab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:23 +0000
Subject: [PATCH 58/66] fix: load lists of the header as lists

---
 src/seismic/utils/miic_utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/seismic/utils/miic_utils.py b/src/seismic/utils/miic_utils.py
index 0bd8170..f8ab326 100644
--- a/src/seismic/utils/miic_utils.py
+++ b/src/seismic/utils/miic_utils.py
@@ -297,6 +297,8 @@ def load_header_from_np_array(array_dict: dict) -> dict:
         else:
             try:
                 d[k] = array_dict[k][0]
+                if isinstance(d[k], np.ndarray):
+                    d[k] = d[k].tolist()
             except IndexError:
                 warnings.warn(
                     f'Key {k} could not be loaded into the header.')
-- 
2.43.0


From dc3add9df6a9f458583b9eeef351131790d84814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:23 +0000
Subject: [PATCH 59/66] fix: keep header and history of a reloaded CorrBulk

The header of a CorrBulk read from disk was a plain dictionary, so that every
operation on it failed, and the processing history was emptied.
---
 src/seismic/correlate/stream.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/seismic/correlate/stream.py b/src/seismic/correlate/stream.py
index 8f9e3e2..94140ba 100644
--- a/src/seismic/correlate/stream.py
+++ b/src/seismic/correlate/stream.py
@@ -61,12 +61,15 @@ class CorrBulk(object):
         self.data = A
         if stats:
             self.stats = stats
+            if not isinstance(stats, CorrStats):
+                self.stats = CorrStats(stats)
         elif statlist:
             self.stats = convert_statlist_to_bulk_stats(statlist)
         else:
             self.stats = CorrStats()
             self.stats['ntrcs'], self.stats['npts'] = A.shape
-        self.stats['processing_bulk'] = []
+        self.stats['processing_bulk'] = list(
+            self.stats.get('processing_bulk', []))
         self.ref_trc = None
 
     def __getitem__(self, item):
-- 
2.43.0


From 2ffafa2c180fe9b2ee949081b519ba9a6d2c16fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:23 +0000
Subject: [PATCH 60/66] fix: keep header times to the microsecond

The times of the header were cut to 0.1 milliseconds when writing to hdf5.
---
 src/seismic/db/corr_hdf5.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/seismic/db/corr_hdf5.py b/src/seismic/db/corr_hdf5.py
index 2621bfe..1a47e55 100644
--- a/src/seismic/db/corr_hdf5.py
+++ b/src/seismic/db/corr_hdf5.py
@@ -483,8 +483,8 @@ def convert_header_to_hdf5(dataset: h5py.Dataset, header: Stats):
     for key in header:
         try:
             if isinstance(header[key], UTCDateTime):
-                # convert time to string
-                header[key] = header[key].format_fissures()
+                # convert time to string (full precision)
+                header[key] = str(header[key])
             dataset.attrs[key] = header[key]
         except TypeError:
             warnings.warn(
-- 
2.43.0


From 6a7443049d5d30914747275f0c5adfd424b2de80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:04 +0000
Subject: [PATCH 61/66] fix: align velocity changes to their own forward value

---
 src/seismic/monitor/spatial.py | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/seismic/monitor/spatial.py b/src/seismic/monitor/spatial.py
index d0314ae..90ff65f 100644
--- a/src/seismic/monitor/spatial.py
+++ b/src/seismic/monitor/spatial.py
@@ -752,7 +752,7 @@ class DVGrid(object):
             ii = np.argmin(abs(np.array(dv.stats.corr_start)-utc))
             val = dv.value[ii]
             corr = dv.corr[ii]
-            if np.isnan(val) or np.isnan(corr) or corr <= 1e-3 or corr >= 1:
+            if not is_usable(val, corr):
                 # No value
                 continue
             vals.append(val)
@@ -1030,6 +1030,21 @@ class DVGrid(object):
         return dvs
 
 
+def is_usable(val: float, corr: float) -> bool:
+    """
+    Check if a measurement can be used in the inversion.
+
+    :param val: The measured value
+    :type val: float
+    :param corr: The corresponding correlation coefficient
+    :type corr: float
+    :return: True if there is a value and its data variance is defined.
+    :rtype: bool
+    """
+    return not (
+        np.isnan(val) or np.isnan(corr) or corr <= 1e-3 or corr >= 1)
+
+
 def align_dv_curves(
         dv: DV, utc: UTCDateTime, steps: int, value: float = 0.):
     """
@@ -1089,6 +1104,7 @@ def dv_starts(dv: DV, utc: UTCDateTime, corr_thres: float) -> bool:
     if utc < dv.stats.corr_start[0] or utc > dv.stats.corr_end[-1]:
         return False
     ii = np.argmin(abs(np.array(dv.stats.corr_start)-utc))
-    if np.isnan(dv.corr[ii]) or dv.corr[ii] < corr_thres:
+    if not is_usable(dv.value[ii], dv.corr[ii]) \
+            or dv.corr[ii] < corr_thres:
         return False
     return True
-- 
2.43.0


From 33f103041292bed5cd31eba2a12a1e6d62daaedf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:04 +0000
Subject: [PATCH 62/66] fix: refuse every coordinate outside of the grid

---
 src/seismic/monitor/spatial.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/seismic/monitor/spatial.py b/src/seismic/monitor/spatial.py
index 90ff65f..bf15ba1 100644
--- a/src/seismic/monitor/spatial.py
+++ b/src/seismic/monitor/spatial.py
@@ -879,13 +879,13 @@ class DVGrid(object):
         x, y = geo2cart(lat, lon, self.lat0, self.lon0)
         if not isinstance(x, np.ndarray):
             if np.all(abs(self.xf-x) > self.res) \
-                    or np.all(abs(self.yf-y > self.res)):
+                    or np.all(abs(self.yf-y) > self.res):
                 raise ValueError(
                     'The point is outside the coordinate grid'
                 )
             return np.argmin(abs(self.xf-x)**2+abs(self.yf-y)**2)
-        if np.all(np.array([abs(self.xf-xx) for xx in x]) > self.res)\
-                or np.all(np.array([abs(self.yf-yy) for yy in y]) > self.res):
+        if np.any([np.all(abs(self.xf-xx) > self.res) for xx in x])\
+                or np.any([np.all(abs(self.yf-yy) > self.res) for yy in y]):
             raise ValueError(
                 'The point is outside the coordinate grid'
             )
-- 
2.43.0


From d1d85249bdd4e8d5f482c19a0cc98b66f6e8b692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:04 +0000
Subject: [PATCH 63/66] fix: accept velocity changes with empty processing

---
 src/seismic/monitor/spatial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/seismic/monitor/spatial.py b/src/seismic/monitor/spatial.py
index bf15ba1..3a302dc 100644
--- a/src/seismic/monitor/spatial.py
+++ b/src/seismic/monitor/spatial.py
@@ -773,7 +773,7 @@ class DVGrid(object):
         self._add_stations(slat1, slon1)
         vals = np.array(vals)
         corrs = np.array(corrs)
-        if processing is not None:
+        if processing and 'tw_start' in processing:
             tw = (
                 processing['tw_start'],
                 processing['tw_start'] + processing['tw_len'])
-- 
2.43.0


From 1569452e82649448800a5d6715e9f98ce83f8c12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:14 +0000
Subject: [PATCH 64/66] fix: never share the processing of velocity changes

---
 src/seismic/monitor/dv.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/seismic/monitor/dv.py b/src/seismic/monitor/dv.py
index cc296e0..1ea6579 100644
--- a/src/seismic/monitor/dv.py
+++ b/src/seismic/monitor/dv.py
@@ -11,6 +11,7 @@ Created: Tuesday, 15th June 2021 04:12:18 pm
 Last Modified: Tuesday, 5th March 2024 01:59:30 pm
 '''
 
+from copy import deepcopy
 from datetime import datetime
 from glob import glob
 from typing import List, Tuple, Optional
@@ -76,7 +77,8 @@ class DV(object):
         self.second_axis = second_axis
         self.method = method
         self.stats = stats
-        self.dv_processing = dv_processing
+        # never share it with other objects
+        self.dv_processing = deepcopy(dv_processing)
         # Available indices
         self.avail = ~np.isnan(self.corr)
 
-- 
2.43.0


From 37b2431e08eec8b3b7c7aebd1da314bfd58390ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:14 +0000
Subject: [PATCH 65/66] fix: save aligned velocity changes without processing

---
 src/seismic/monitor/dv.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/seismic/monitor/dv.py b/src/seismic/monitor/dv.py
index 1ea6579..62e1215 100644
--- a/src/seismic/monitor/dv.py
+++ b/src/seismic/monitor/dv.py
@@ -109,10 +109,10 @@ class DV(object):
         kwargs = mu.save_header_to_np_array(self.stats)
         if self.dv_processing is not None and len(self.dv_processing):
             kwargs.update({
-                'freq_min': self.dv_processing['freq_min'],
-                'freq_max': self.dv_processing['freq_max'],
-                'tw_len': self.dv_processing['tw_len'],
-                'tw_start': self.dv_processing['tw_start'],
+                'freq_min': self.dv_processing.get('freq_min'),
+                'freq_max': self.dv_processing.get('freq_max'),
+                'tw_len': self.dv_processing.get('tw_len'),
+                'tw_start': self.dv_processing.get('tw_start'),
                 'sides': self.dv_processing.get('sides', 'unknown'),
                 'aligned': self.dv_processing.get('aligned', False)
             })
@@ -261,13 +261,14 @@ def read_dv(path: str) -> DV:
             freq_max=float(loaded['freq_max']),
             tw_start=float(loaded['tw_start']),
             tw_len=float(loaded['tw_len']))
+    except KeyError:
+        dv_processing = {}
+    if len(dv_processing) or 'aligned' in loaded:
         # 0-d arrays to the kind that was saved
         dv_processing['sides'] = np.asarray(
             loaded.get('sides', 'unknown')).item()
         dv_processing['aligned'] = np.asarray(
             loaded.get('aligned', False)).item()
-    except KeyError:
-        dv_processing = {}
     return DV(
         loaded['corr'], loaded['value'], vt, loaded['sim_mat'],
         loaded['second_axis'], method, stats=stats,
-- 
2.43.0


From 9b22977c2a21e2e4df45bc3a33afdbcfe2543ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:52 +0000
Subject: [PATCH 66/66] fix: sensitivity kernels for any lapse time

---
 src/seismic/monitor/spatial.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/seismic/monitor/spatial.py b/src/seismic/monitor/spatial.py
index 3a302dc..4b72a52 100644
--- a/src/seismic/monitor/spatial.py
+++ b/src/seismic/monitor/spatial.py
@@ -153,7 +153,8 @@ def sensitivity_kernel(
             'dt is too large for the grid spacing. This can lead to '
             'artefacts in the kernel. dt should be smaller than '
             'dx/(2*vel).')
-    T = np.arange(0, t + dt, dt)
+    # never beyond t (+ half a sample), where there is no propagation
+    T = np.arange(0, t + dt/2, dt)
     dist_s1_s2 = np.linalg.norm(s1-s2)
     denom = probability(dist_s1_s2, t, vel, mf_path, atol=atol)
     dist_s1_x0 = compute_grid_dist(x, y, s1[0], s1[1])
-- 
2.43.0

