From f72d283daa65abfd4c94d8dc217fc6f81385fdfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:17 +0000
Subject: [PATCH 01/45] fix: refuse bins, sigmas and noise weights that are not
 a number

A NaN bin bound counts nothing, and a NaN sigma or noise weight makes noise
generation fail after the round has started.
---
 privcount/counter.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/privcount/counter.py b/privcount/counter.py
index c6fd576..42e9774 100644
--- a/privcount/counter.py
+++ b/privcount/counter.py
@@ -126,7 +126,8 @@ def check_noise_weight_value(noise_weight_value, description="value"):
     Returns True if the noise weight value is valid.
     Logs a specific warning using description, and returns False if it is not.
     '''
-    if noise_weight_value < 0.0:
+    # this also refuses weights that are not a number
+    if not noise_weight_value >= 0.0:
         logging.warning("Noise weight {} must be positive, was {}".format(
                 description, noise_weight_value))
         return False
@@ -6460,8 +6461,8 @@ def check_bins_config(bins, allow_unknown_counters=False):
             # c is optional, and is ignored by this code
             l = bin[0]
             u = bin[1]
-            # check for inverted bounds
-            if l >= u:
+            # check for inverted bounds, and for bounds that are not a number
+            if not l < u:
                 logging.warning("bin {} in counter {} will never count any values, because its lower bound is greater than or equal to its upper bound"
                                 .format(bin, key))
                 return False
@@ -6498,7 +6499,8 @@ def check_sigmas_config(sigmas, allow_unknown_counters=False):
             return False
     # sort names alphabetically, so the logs are in a sensible order
     for key in sorted(sigmas.keys()):
-        if sigmas[key]['sigma'] < 0.0:
+        # this also refuses sigmas that are not a number
+        if not sigmas[key]['sigma'] >= 0.0:
             logging.warning("invalid sigma for counter {}: less than zero".format(key))
             return False
     return True
-- 
2.43.0


From b92c7c3cdd6a3cc20016ffce6baeaa8a79ee2954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:17 +0000
Subject: [PATCH 02/45] fix: noise allocation failed when rounding put the
 largest ratio over budget

The upper end of the search interval could exceed epsilon by a rounding
error, so valid privacy parameters were refused with a ValueError.
---
 privcount/statistics_noise.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/privcount/statistics_noise.py b/privcount/statistics_noise.py
index efaebed..b84424f 100644
--- a/privcount/statistics_noise.py
+++ b/privcount/statistics_noise.py
@@ -218,9 +218,16 @@ def get_opt_privacy_allocation(epsilon, delta, stats_parameters,
         if (max_sigma_ratio is None) or (ratio > max_sigma_ratio):
             max_sigma_ratio = ratio
     # get optimal sigma ratio
+    within_budget = lambda x: sum((get_epsilon_consumed(stats_parameters, excess_noise_ratio, x, delta,
+            tol=epsilon_tol)).itervalues()) <= epsilon
+    # the epsilons consumed are only accurate to within the tolerance, so the
+    # largest approximate ratio can appear to exceed the budget by a tiny amount
+    slack = DEFAULT_EPSILON_TOLERANCE
+    while max_sigma_ratio > 0.0 and not within_budget(max_sigma_ratio):
+        max_sigma_ratio *= 1.0 + slack
+        slack *= 2.0
     opt_sigma_ratio = interval_boolean_binary_search(\
-        lambda x: sum((get_epsilon_consumed(stats_parameters, excess_noise_ratio, x, delta,
-            tol=epsilon_tol)).itervalues()) <= epsilon,
+        within_budget,
         min_sigma_ratio, max_sigma_ratio, sigma_ratio_tol, return_true=True)
     # compute epsilon allocation that achieves optimal sigma ratio
     opt_epsilons = get_epsilon_consumed(stats_parameters, excess_noise_ratio, opt_sigma_ratio,
-- 
2.43.0


From 83905d314f80be8171c66765eb3dd2b5fffe7e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:08 +0000
Subject: [PATCH 03/45] fix: the server accepted clients that skipped the
 secret handshake

A client that sent HANDSHAKE4 SUCCESS without a verified HANDSHAKE2 was
authenticated, without knowing the shared secret.
---
 privcount/protocol.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/privcount/protocol.py b/privcount/protocol.py
index 6adb4bb..7493ae7 100644
--- a/privcount/protocol.py
+++ b/privcount/protocol.py
@@ -936,7 +936,9 @@ class PrivCountServerProtocol(PrivCountProtocol):
                                        PrivCountProtocol.HANDSHAKE3))
                 self.handshake_failed()
         elif event_type == PrivCountProtocol.HANDSHAKE4:
-            if self.handshake4_verify(event_line):
+            # the client must have proved that it knows the secret on this
+            # connection, using HANDSHAKE2
+            if self.client_cookie and self.handshake4_verify(event_line):
                 self.handshake_succeeded()
             else:
                 self.handshake_failed()
-- 
2.43.0


From 4e40f57f51c7ce1135bf88778cae1510e134b5b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:58 +0000
Subject: [PATCH 04/45] fix: a share keeper stayed active with some of the
 shares after refusing others

---
 privcount/share_keeper.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/privcount/share_keeper.py b/privcount/share_keeper.py
index b1ce3ad..6dde16b 100644
--- a/privcount/share_keeper.py
+++ b/privcount/share_keeper.py
@@ -161,6 +161,8 @@ class ShareKeeper(ReconnectingClientFactory, PrivCountClient):
                                 .format(share, config))
                 # TODO: secure delete
                 del private_key
+                # the round never started, so don't keep a partial sum
+                self.keystore = None
                 return None
 
         logging.info("successfully started and imported {} blinding shares for {} counters ({} bins)"
-- 
2.43.0


From 5fc40c6667777d699df5efb79cd97728bed87195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:58 +0000
Subject: [PATCH 05/45] fix: an unexpected share keeper key ended the data
 collector instead of refusing the round

---
 privcount/data_collector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/privcount/data_collector.py b/privcount/data_collector.py
index 13e8b9b..87b0059 100644
--- a/privcount/data_collector.py
+++ b/privcount/data_collector.py
@@ -235,7 +235,7 @@ class DataCollector(ReconnectingClientFactory, PrivCountClient):
                 logging.info('we received an unexpected key for share keeper {}'.format(sk_uid))
                 digest_error = True
 
-            expected_sk_digests.remove(requested_sk_digest)
+            expected_sk_digests.discard(requested_sk_digest)
 
         if digest_error or len(expected_sk_digests) != 0:
             logging.info('refusing to start collecting without required share keepers')
-- 
2.43.0


From 6025acacd3e866c7b543acd43088bdae38e331ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:59 +0000
Subject: [PATCH 06/45] fix: a start command during a round replaced the noise
 recorded for that round

---
 privcount/data_collector.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/privcount/data_collector.py b/privcount/data_collector.py
index 87b0059..a4a4f88 100644
--- a/privcount/data_collector.py
+++ b/privcount/data_collector.py
@@ -200,6 +200,11 @@ class DataCollector(ReconnectingClientFactory, PrivCountClient):
         to start a new collection phase
         return None if failure, otherwise json will encode result
         '''
+        # if we are still running from a previous incarnation, we need to stop
+        # first, and keep the start config and noise of the running round
+        if self.aggregator is not None:
+            return None
+
         # keep the start config to send to the TS at the end of the collection
         # deepcopy in case we make any modifications later
         self.start_config = deepcopy(config)
@@ -214,11 +219,6 @@ class DataCollector(ReconnectingClientFactory, PrivCountClient):
         if dc_counters is None:
             return None
 
-        # if we are still running from a previous incarnation, we need to stop
-        # first
-        if self.aggregator is not None:
-            return None
-
         # we require that only the configured share keepers be used in the
         # collection phase, because we must be able to encrypt messages to them
         expected_sk_digests = set()
-- 
2.43.0


From ebfe754c4e387e0ca2b5e273b2103eaf3d35d405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:20 +0000
Subject: [PATCH 07/45] fix: domain suffixes were never matched when exact
 domain counters were also collected

---
 privcount/data_collector.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/privcount/data_collector.py b/privcount/data_collector.py
index a4a4f88..ec46e91 100644
--- a/privcount/data_collector.py
+++ b/privcount/data_collector.py
@@ -1477,7 +1477,8 @@ class Aggregator(ReconnectingClientFactory):
                 # exact matches match the first bin
                 # suffix matches match an arbitrary bin (which is ok, because
                 # the suffix lists should be disjoint)
-                if self.needs_domain_exact_match and domain_exact_match_bin is not None:
+                if (self.needs_domain_exact_match and
+                    domain_exact_match_bin != float('inf')):
                     domain_suffix_match_bin = domain_exact_match_bin
                 else:
                     # check for a suffix match
-- 
2.43.0


From bff04fbeb9648426c3f73c6fe9c45343b11e94d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:13 +0000
Subject: [PATCH 08/45] fix: counts were tallied and published when some
 clients sent none

---
 privcount/tally_server.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/privcount/tally_server.py b/privcount/tally_server.py
index 029f927..632885a 100644
--- a/privcount/tally_server.py
+++ b/privcount/tally_server.py
@@ -2201,6 +2201,9 @@ class CollectionPhase(object):
         tally_was_successful = False
         if len(self.final_counts) <= 0:
             logging.warning("no tally results to write!")
+        elif self.is_error():
+            # without the counts from every client, the tally is still blinded
+            logging.warning("missing counts from some clients, no tally results to write!")
         else:
             tallied_counter = SecureCounters(self.counters_config,
                                              self.modulus,
-- 
2.43.0


From d8fa4b70296c606028ecdfbea06b50dfa67272a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:24 +0000
Subject: [PATCH 09/45] fix: Tor2Web client counters were never incremented

---
 privcount/data_collector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/privcount/data_collector.py b/privcount/data_collector.py
index ec46e91..ff4b3ea 100644
--- a/privcount/data_collector.py
+++ b/privcount/data_collector.py
@@ -2715,7 +2715,7 @@ class Aggregator(ReconnectingClientFactory):
             if hs_role is None:
                 hop = None
             elif hs_role == "Client":
-                hop = "Tor2web"
+                hop = "Tor2Web"
             else:
                 hop = "SingleOnion"
         else:
-- 
2.43.0


From 5a7339d96eeb145f0b27581b3dfcc08bfc66eb7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:25 +0000
Subject: [PATCH 10/45] fix: onion service circuit counters with a version and
 a role were never incremented

---
 privcount/data_collector.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/privcount/data_collector.py b/privcount/data_collector.py
index ff4b3ea..96c23e2 100644
--- a/privcount/data_collector.py
+++ b/privcount/data_collector.py
@@ -2546,12 +2546,14 @@ class Aggregator(ReconnectingClientFactory):
                                                     hs_version,
                                                     is_active,
                                                     is_failure,
+                                                    role="",
                                                     bin=SINGLE_BIN,
                                                     inc=1):
         '''
         Increment bin by inc for the counter variants starting with
         counter_prefix and ending in counter_suffix, using hs_version,
-        is_active and is_failure to create counter names.
+        is_active, is_failure, and role to create counter names.
+        The version goes between counter_prefix and role in the names.
 
         Unknown counter names are ignored.
         '''
@@ -2560,7 +2562,8 @@ class Aggregator(ReconnectingClientFactory):
         assert hs_version is None or hs_version == 2 or hs_version == 3
 
         # HSDir/Intro/Rend ...
-        self._increment_circuit_close_status_counters(counter_prefix,
+        self._increment_circuit_close_status_counters('{}{}'
+                                                      .format(counter_prefix, role),
                                                       counter_suffix,
                                                       is_active,
                                                       is_failure,
@@ -2574,8 +2577,8 @@ class Aggregator(ReconnectingClientFactory):
         else:
             hs_version_name = '{}'.format(hs_version)
 
-        self._increment_circuit_close_status_counters('{}{}'
-                                                      .format(counter_prefix, hs_version_name),
+        self._increment_circuit_close_status_counters('{}{}{}'
+                                                      .format(counter_prefix, hs_version_name, role),
                                                       counter_suffix,
                                                       is_active,
                                                       is_failure,
@@ -2734,24 +2737,25 @@ class Aggregator(ReconnectingClientFactory):
         if hs_role is not None:
             # HSDir /2/3 Client/Service /Failure/Success Circuit Count/{Inbound,Outbound}Cell{Count,Histogram}/CellRatio/LifeTime
             # Intro/Rend /U/2/3 Client/Service /Active/Inactive /Failure/Success Circuit Count/{Inbound,Outbound}Cell{Count,Histogram}/(Active)CellRatio/LifeTime
-            self._increment_circuit_close_hs_status_counters('{}{}'
-                                                             .format(position, hs_role),
+            self._increment_circuit_close_hs_status_counters(position,
                                                              counter_suffix,
                                                              hs_version,
                                                              is_active,
                                                              is_failure,
+                                                             role=hs_role,
                                                              bin=bin,
                                                              inc=inc)
 
             assert hop is not None
             # HSDir /2/3 {Tor2Web,MultiHop}Client/{SingleOnion,MultiHop}Service /Failure/Success Circuit Count/{Inbound,Outbound}Cell{Count,Histogram}/CellRatio/LifeTime
             # Intro/Rend /U/2/3 {Tor2Web,MultiHop}Client/{SingleOnion,MultiHop}Service /Active/Inactive /Failure/Success Circuit Count/{Inbound,Outbound}Cell{Count,Histogram}/(Active)CellRatio/LifeTime
-            self._increment_circuit_close_hs_status_counters('{}{}{}'
-                                                             .format(position, hop, hs_role),
+            self._increment_circuit_close_hs_status_counters(position,
                                                              counter_suffix,
                                                              hs_version,
                                                              is_active,
                                                              is_failure,
+                                                             role='{}{}'
+                                                             .format(hop, hs_role),
                                                              bin=bin,
                                                              inc=inc)
 
-- 
2.43.0


From d435d1e94e26d393f452e24dba292937a6cf76d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:25 +0000
Subject: [PATCH 11/45] fix: a malformed position flag in a circuit event ended
 the control connection

---
 privcount/data_collector.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/privcount/data_collector.py b/privcount/data_collector.py
index 96c23e2..9055407 100644
--- a/privcount/data_collector.py
+++ b/privcount/data_collector.py
@@ -1950,11 +1950,6 @@ class Aggregator(ReconnectingClientFactory):
         if prefix is None:
             prefix = ""
 
-        # Work around some unexpected flags from Tor
-        Aggregator.make_circuit_common_fields_valid(fields, event_desc,
-                                                    is_mandatory=is_mandatory,
-                                                    prefix=prefix)
-
         # Validate the potentially mandatory fields
 
         if not is_float_valid("EventTimestamp",
@@ -2087,6 +2082,12 @@ class Aggregator(ReconnectingClientFactory):
                             min_value=1, max_value=None):
             return False
 
+        # Work around some unexpected flags from Tor, now that we know the
+        # flags are valid
+        Aggregator.make_circuit_common_fields_valid(fields, event_desc,
+                                                    is_mandatory=is_mandatory,
+                                                    prefix=prefix)
+
         # if everything passed, this much is ok
         return True
 
-- 
2.43.0


From fc9b34ce459302cbefa2b2630351128a3b61a5a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:46 +0000
Subject: [PATCH 12/45] fix: event timestamps that are not finite ended the
 control connection

---
 privcount/tagged_event.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/privcount/tagged_event.py b/privcount/tagged_event.py
index e6213b3..0cb8b6f 100644
--- a/privcount/tagged_event.py
+++ b/privcount/tagged_event.py
@@ -8,6 +8,8 @@ See LICENSE for licensing information
 
 import logging
 
+from math import isinf, isnan
+
 from privcount.config import validate_ip_address
 from privcount.log import summarise_string
 
@@ -249,6 +251,11 @@ def is_float_valid(field_name, fields, event_desc,
                         .format(field_name, fields[field_name], e,
                                 event_desc))
         return False
+    if isnan(field_value) or isinf(field_value):
+        # range checks and counters can't handle these values
+        logging.warning("Ignored {} '{}', must be a finite float {}"
+                        .format(field_name, fields[field_name], event_desc))
+        return False
     if min_value is not None and field_value < min_value:
         logging.warning("Ignored {} '{}', must be at least {} {}"
                         .format(field_name, field_value, min_value,
-- 
2.43.0


From f55ac3dbe92c5944fdf8bc59643fb33a2ecb9e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:20 +0000
Subject: [PATCH 13/45] fix: circuit counters with an activity and a status
 were never incremented

---
 privcount/data_collector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/privcount/data_collector.py b/privcount/data_collector.py
index 9055407..de31cf0 100644
--- a/privcount/data_collector.py
+++ b/privcount/data_collector.py
@@ -2537,7 +2537,7 @@ class Aggregator(ReconnectingClientFactory):
                                            inc=inc)
 
             # Prefix Active/Inactive Failure/Success Circuit Suffix
-            self.secure_counters.increment('{}{}Circuit{}'
+            self.secure_counters.increment('{}{}{}Circuit{}'
                                            .format(counter_prefix, activity, status, counter_suffix),
                                            bin=bin,
                                            inc=inc)
-- 
2.43.0


From 1f6ea242c5b8bde9c50748a375d144091d37b97c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:16 +0000
Subject: [PATCH 14/45] fix: allow the bins of the HSDir UploadDelayTime
 histograms

Only the TrafficModel DelayTime counters have a single bin. The HSDir2 store
UploadDelayTime counters are histograms, but any round that collected them was
refused, because their names also end in DelayTime.
---
 privcount/counter.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/privcount/counter.py b/privcount/counter.py
index 42e9774..c85a9c0 100644
--- a/privcount/counter.py
+++ b/privcount/counter.py
@@ -6420,7 +6420,10 @@ def check_bin_count_matches_name(bins):
         # handle template counters by stripping the non-template part
         key_template, _, _ = key.partition("_")
         # the TrafficModel DelayTime counters are single bin
-        if key_template.endswith("Count") or key_template.endswith("DelayTime"):
+        # (but the HSDir UploadDelayTime counters are histograms)
+        if (key_template.endswith("Count") or
+            (key_template.endswith("DelayTime") and
+             "TrafficModel" in key_template)):
             if bin_count != 1:
                 logging.warning("counter {} ends in Count, but has {} bins: {}"
                                 .format(key, bin_count, bins[key]))
-- 
2.43.0


From bf353ffd871df0e699be71a753e794e85981151c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:19 +0000
Subject: [PATCH 15/45] fix: do not use control port secrets that are too short

readFile() warned about cookies and passwords that were shorter than the
minimum length, but returned them anyway. Controllers must not use files that
are not 32 bytes long as an authentication cookie.
---
 privcount/protocol.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/privcount/protocol.py b/privcount/protocol.py
index 7493ae7..e16924b 100644
--- a/privcount/protocol.py
+++ b/privcount/protocol.py
@@ -1477,6 +1477,7 @@ class TorControlProtocol(object):
                                 .format(secret_file,
                                         len(secret_string),
                                         min_len))
+                return None
             if len(secret_string) > max_len:
                 logging.warning("Authentication failed, file '{}' was wrong length {}, wanted at most {}"
                                 .format(secret_file,
-- 
2.43.0


From 86c241111c4bb1d20ebf4bcec201a81a3999910c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:19 +0000
Subject: [PATCH 16/45] fix: check EnablePrivCount when events are enabled

The reply to GETCONF EnablePrivCount was only handled in the discovering
state, but it is requested just before the processing state. So when use_setconf
was False, and PrivCount was off, the round silently counted nothing.
---
 privcount/protocol.py | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/privcount/protocol.py b/privcount/protocol.py
index e16924b..64ec0bb 100644
--- a/privcount/protocol.py
+++ b/privcount/protocol.py
@@ -1985,17 +1985,6 @@ class TorControlClientProtocol(LineOnlyReceiver, TorControlProtocol):
                                  .format(transport_info(self.transport)))
                 self.quit()
                 return
-            # Check PrivCount is on
-            elif line.startswith("250 EnablePrivCount="):
-                _, _, privcount_enabled = line.partition("EnablePrivCount=")
-                if privcount_enabled != "1":
-                    logging.warning("Connection with {} failed: EnablePrivCount is {}"
-                                .format(transport_info(self.transport),
-                                        privcount_enabled))
-                    self.quit()
-                    return
-                else:
-                    logging.info("Confirmed that EnablePrivCount is 1")
             # It's a relay, and it's just told us its Nickname
             elif line.startswith("250 Nickname="):
                 _, _, nickname = line.partition("Nickname=")
@@ -2131,6 +2120,18 @@ class TorControlClientProtocol(LineOnlyReceiver, TorControlProtocol):
         elif self.state == 'waiting' and line.startswith("2"):
             # log ok events while we're waiting for round start
             self.handleUnexpectedLine(line)
+        # Check PrivCount is on: we ask for this when we enable events
+        elif (self.state == 'processing' and
+              line.startswith("250 EnablePrivCount=")):
+            _, _, privcount_enabled = line.partition("EnablePrivCount=")
+            if privcount_enabled != "1":
+                logging.warning("Connection with {} failed: EnablePrivCount is {}"
+                            .format(transport_info(self.transport),
+                                    privcount_enabled))
+                self.quit()
+                return
+            else:
+                logging.info("Confirmed that EnablePrivCount is 1")
         elif self.state == 'processing' and line.startswith("650 PRIVCOUNT_"):
             parts = line.split(" ")
             assert len(parts) > 1
-- 
2.43.0


From 2f9d7d6f227ffd80196eceebdd29f383f051533e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:19 +0000
Subject: [PATCH 17/45] fix: process match lists again when files are removed
 or reordered

---
 privcount/tally_server.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/privcount/tally_server.py b/privcount/tally_server.py
index 632885a..1d47cd9 100644
--- a/privcount/tally_server.py
+++ b/privcount/tally_server.py
@@ -434,6 +434,10 @@ class TallyServer(ServerFactory, PrivCountServer):
                 new_config[files_key][i] = file_path
                 if has_list_changed:
                     has_any_previous_list_changed = True
+            # the processed lists also depend on which files there are, and
+            # on their order
+            if new_config[files_key] != old_match_files:
+                has_any_previous_list_changed = True
             if not has_any_previous_list_changed:
                 # skip processing the lists into new_processed_config,
                 # because they have not changed
-- 
2.43.0


From 58e5ac637c6abd151bfeefdfc65a3211496b204d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:06 +0000
Subject: [PATCH 18/45] fix: collect all traffic model counters when there is
 no traffic noise file, rather than failing

get_bins_init_config() documents that no noise config means all counters, but
raised a TypeError, which ended the tally server.
---
 privcount/traffic_model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/privcount/traffic_model.py b/privcount/traffic_model.py
index 7e36aa5..f04a66d 100644
--- a/privcount/traffic_model.py
+++ b/privcount/traffic_model.py
@@ -370,7 +370,8 @@ class TrafficModel(object):
         for counter_label in label_map:
             template_label = label_map[counter_label]
             # only count the label if it was in the config
-            if template_label in templated_noise_config['counters']:
+            if (templated_noise_config is None or
+                template_label in templated_noise_config['counters']):
                 # traffic counters are all single bin counters
                 bins_dict[counter_label] = {'bins': [[0.0, float("inf")]]}
 
-- 
2.43.0


From 5d4236b22d132e200312e9f5bdbdbc9535d2f3ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:06 +0000
Subject: [PATCH 19/45] fix: use the name of the circuit counter of stream
 models that is known and incremented

Stream models announced ExitCircuitTrafficModelStreamCount, which is not a known
counter, so configurations with it were refused. ExitCircuitTrafficModelCircuitCount,
which is incremented, was refused in the traffic noise file.
---
 privcount/traffic_model.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/privcount/traffic_model.py b/privcount/traffic_model.py
index f04a66d..c496eac 100644
--- a/privcount/traffic_model.py
+++ b/privcount/traffic_model.py
@@ -248,12 +248,14 @@ class TrafficModel(object):
         self.packet_hmm = None
         if 'packet_model' in model_config:
             # the packet model counters are counted on stream end events
-            self.packet_hmm = HiddenMarkovModel(model_config['packet_model'], "ExitStreamTrafficModel")
+            self.packet_hmm = HiddenMarkovModel(model_config['packet_model'], "ExitStreamTrafficModel",
+                                                "ExitStreamTrafficModelStreamCount")
 
         self.stream_hmm = None
         if 'stream_model' in model_config:
             # the stream model counters are counted on circuit end events
-            self.stream_hmm = HiddenMarkovModel(model_config['stream_model'], "ExitCircuitTrafficModel")
+            self.stream_hmm = HiddenMarkovModel(model_config['stream_model'], "ExitCircuitTrafficModel",
+                                                "ExitCircuitTrafficModelCircuitCount")
 
     def register_counters(self):
         if self.packet_hmm != None:
@@ -422,7 +424,7 @@ class HiddenMarkovModel(object):
     A private class that represents a hidden markov model (HMM).
     '''
 
-    def __init__(self, model_config, counter_prefix_str):
+    def __init__(self, model_config, counter_prefix_str, total_label_str):
         '''
         Initialize the model with a set of states, probabilities for starting in each of those
         states, probabilities for transitioning between those states, and proababilities of emitting
@@ -438,6 +440,7 @@ class HiddenMarkovModel(object):
         self.trans_p = model_config['transition_probability']
         self.emit_p = model_config['emission_probability']
         self.prefix = counter_prefix_str
+        self.total_label = total_label_str
 
     def get_dynamic_counter_template_label_mapping(self):
         '''
@@ -509,10 +512,10 @@ class HiddenMarkovModel(object):
         ExitCircuitTrafficModelEmissionCount
         ExitCircuitTrafficModelLogDelayTime
         ExitCircuitTrafficModelSquaredLogDelayTime
-        ExitCircuitTrafficModelStreamCount
+        ExitCircuitTrafficModelCircuitCount
         ExitCircuitTrafficModelTransitionCount
         '''
-        static_labels = ['{}StreamCount'.format(self.prefix),
+        static_labels = [self.total_label,
                          '{}EmissionCount'.format(self.prefix),
                          '{}TransitionCount'.format(self.prefix),
                          '{}DelayTime'.format(self.prefix),
-- 
2.43.0


From 8ed060169a46a66326e97dcccaa7dab4be9d0a70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:06 +0000
Subject: [PATCH 20/45] fix: update traffic models in which the (noisy) delays
 of an active state are not positive

The rate of such a state was divided by, so the whole model was not updated.
---
 privcount/traffic_model.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/privcount/traffic_model.py b/privcount/traffic_model.py
index c496eac..1f421a3 100644
--- a/privcount/traffic_model.py
+++ b/privcount/traffic_model.py
@@ -796,9 +796,13 @@ class HiddenMarkovModel(object):
                     (dp, mu, sigma, lam) = self.emit_p[state][obs]
 
                     dp_new = inertia * dp + (1.0-inertia) * e_count[state][obs]
-                    # normalize to microseconds per stream before applying inertia, and then
-                    # back to streams per microscond for lambda
-                    lam_new = 1.0 / ((inertia * (1.0/lam)) + ((1.0-inertia) * (1.0/e_lambda[state][obs])))
+                    # without a positive total delay there is no new rate: keep the old one
+                    if lam > 0.0 and e_lambda[state][obs] > 0.0:
+                        # normalize to microseconds per stream before applying inertia, and then
+                        # back to streams per microscond for lambda
+                        lam_new = 1.0 / ((inertia * (1.0/lam)) + ((1.0-inertia) * (1.0/e_lambda[state][obs])))
+                    else:
+                        lam_new = lam
 
                     self.emit_p[state][obs] = (dp_new, 0.0, 0.0, lam_new)
 
-- 
2.43.0


From cdd1234ceaea8cbb8fb5b1e54df9473e6b967bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:06 +0000
Subject: [PATCH 21/45] fix: update the probability of the end observation in
 traffic models

In states with other observations, only these were updated and normalised, so the
sum of the probabilities was not 1, and the updated model was invalid.
---
 privcount/traffic_model.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/privcount/traffic_model.py b/privcount/traffic_model.py
index 1f421a3..50f2b60 100644
--- a/privcount/traffic_model.py
+++ b/privcount/traffic_model.py
@@ -805,6 +805,12 @@ class HiddenMarkovModel(object):
                         lam_new = lam
 
                     self.emit_p[state][obs] = (dp_new, 0.0, 0.0, lam_new)
+                elif obs == 'F':
+                    dp = self.emit_p[state][obs][0]
+
+                    dp_new = inertia * dp + (1.0-inertia) * e_count[state][obs]
+
+                    self.emit_p[state][obs] = (dp_new,)
 
             # be extra sure our new probs sum to 1.0
             e_total = float(sum([v[0] for v in self.emit_p[state].values()]))
@@ -818,6 +824,10 @@ class HiddenMarkovModel(object):
                         (dp, mu, sigma, lam) = self.emit_p[state][obs]
                         dp_new = dp/e_total
                         self.emit_p[state][obs] = (dp_new, 0.0, 0.0, lam)
+                    elif obs == 'F':
+                        dp = self.emit_p[state][obs][0]
+                        dp_new = dp/e_total
+                        self.emit_p[state][obs] = (dp_new,)
             else:
                 logging.warning("BUG: we have no positive emission probabilities in updated model for state {}."
                     .format(state))
-- 
2.43.0


From 0bea84d8a8c66afbddb04bb211f977649be8a8a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:06 +0000
Subject: [PATCH 22/45] fix: keep the traffic model that a round used in its
 outcome, rather than the updated one

---
 privcount/tally_server.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/privcount/tally_server.py b/privcount/tally_server.py
index 1d47cd9..5f83c81 100644
--- a/privcount/tally_server.py
+++ b/privcount/tally_server.py
@@ -2145,7 +2145,8 @@ class CollectionPhase(object):
         if self.traffic_model_config is None: return None
 
         # create a TrafficModel object from the original input model config
-        tmodel = TrafficModel(self.traffic_model_config)
+        # (updates change the model they are given)
+        tmodel = TrafficModel(deepcopy(self.traffic_model_config))
 
         # the traffic model class expects counts only, i.e, dict[label] = count
         tmodel_counts = {}
-- 
2.43.0


From 6195b6be9a697df136e207eab8b32a273b2f6542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:13 +0000
Subject: [PATCH 23/45] fix: keep the bins of traffic model counters when the
 bins and noise are in the same file

---
 privcount/tally_server.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/privcount/tally_server.py b/privcount/tally_server.py
index 5f83c81..17b8b83 100644
--- a/privcount/tally_server.py
+++ b/privcount/tally_server.py
@@ -725,6 +725,8 @@ class TallyServer(ServerFactory, PrivCountServer):
 
                 # inject the traffic model counter bins and noise configs, i.e.,
                 # append the traffic model bins and noise to the other configured values
+                # (the bins and noise are the same dict when they are in the same file)
+                ts_conf['noise']['counters'] = ts_conf['noise']['counters'].copy()
                 ts_conf['counters'].update(tmodel_bins)
                 if 'traffic_noise' in ts_conf:
                     ts_conf['noise']['counters'].update(tmodel_noise)
-- 
2.43.0


From fbf0d62a08e6a122ea3b21801ce78a2d92aa92ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:54 +0000
Subject: [PATCH 24/45] fix: close the connection and stop the injector after
 all events have been sent

---
 privcount/inject.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/privcount/inject.py b/privcount/inject.py
index b83a934..e17ee20 100644
--- a/privcount/inject.py
+++ b/privcount/inject.py
@@ -105,8 +105,6 @@ class PrivCountDataInjector(ServerFactory):
         Depending on the protocol, closing the connection can erase all unread
         data. So we stop sending events, but delay the actual close for a
         short amount of time.
-        This function sometimes reschedules itself using deferLater: any
-        exceptions will be handled by errorCallback.
         '''
         if not self.injecting:
             logging.debug("Ignoring request to stop injecting when injection is not in progress")
@@ -124,9 +122,16 @@ class PrivCountDataInjector(ServerFactory):
             # the data collector to finish reading.
             # we don't care about cancelling here, we're stopping anyway
             stop_deferred = task.deferLater(reactor, 1.0,
-                                            self.stop_injecting)
+                                            self._close)
             stop_deferred.addErrback(errorCallback)
-            return
+
+    def _close(self):
+        '''
+        Close all connections and files, and stop the process.
+        This function is called using deferLater, so any exceptions will be
+        handled by errorCallback.
+        '''
+        self.injecting = False
         if self.listeners is not None:
             stopListening(self.listeners)
             self.listeners = None
-- 
2.43.0


From 85fc3443969e272643523312e7565f57e80cae20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:54 +0000
Subject: [PATCH 25/45] fix: do not wait for decades before injecting the first
 event with --simulate

---
 privcount/inject.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/privcount/inject.py b/privcount/inject.py
index e17ee20..c18367d 100644
--- a/privcount/inject.py
+++ b/privcount/inject.py
@@ -209,15 +209,18 @@ class PrivCountDataInjector(ServerFactory):
                 logging.info("Event end time {} is outside {} to {}, skipping {}"
                              .format(this_time_end, self.prune_before,
                                      self.prune_after, msg))
-                self.last_time_end = this_time_end
+                if this_time_end > 0.0:
+                    self.last_time_end = this_time_end
                 continue
 
             self.output_line_count += 1
 
             # if we need to simulate event inter-arrival times
             wait_time = 0.0
-            if self.do_pause:
-                wait_time = this_time_end - self.last_time_end
+            # (the first event, and events without a valid time, do not wait)
+            if self.do_pause and this_time_end > 0.0:
+                if self.last_time_end > 0.0:
+                    wait_time = this_time_end - self.last_time_end
                 self.last_time_end = this_time_end
 
             # ensure wait_time is sensible
-- 
2.43.0


From f63eaf17ec31275c7ccdeb89dbbf40b5d80b3cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:54 +0000
Subject: [PATCH 26/45] fix: skip empty lines in the injected event log, rather
 than failing

---
 privcount/inject.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/privcount/inject.py b/privcount/inject.py
index c18367d..f10c939 100644
--- a/privcount/inject.py
+++ b/privcount/inject.py
@@ -202,6 +202,8 @@ class PrivCountDataInjector(ServerFactory):
                 return
 
             msg = line.strip()
+            if msg == '':
+                continue
             this_time_start, this_time_end = self._get_event_times(msg)
 
             # make sure this event is in our 'valid' event window
-- 
2.43.0


From 5fdd78a0344f753fc83905283bfef11cdf5a2fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:54 +0000
Subject: [PATCH 27/45] fix: refuse unknown events in the injector, rather than
 failing

---
 privcount/protocol.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/privcount/protocol.py b/privcount/protocol.py
index 64ec0bb..ac1651a 100644
--- a/privcount/protocol.py
+++ b/privcount/protocol.py
@@ -2487,7 +2487,7 @@ class TorControlServerProtocol(LineOnlyReceiver, TorControlProtocol):
                     # this line displays the event name uppercased
                     # that's a minor, irrelevant protocol difference
                     self.sendLine('552 Unrecognized event "{}"'
-                                  .format(unknown_events[0]))
+                                  .format(sorted(unknown_events)[0]))
                     self.factory.stop_injecting()
             elif parts[0] == "GETINFO":
                 # the correct response to an empty GETINFO is an empty OK
-- 
2.43.0


From e62d56b6802917381f181a5894f7a3c221ec57ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:54 +0000
Subject: [PATCH 28/45] fix: keep the durations of injected events to the
 microsecond

---
 privcount/inject.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/privcount/inject.py b/privcount/inject.py
index f10c939..fdaa5cf 100644
--- a/privcount/inject.py
+++ b/privcount/inject.py
@@ -322,6 +322,8 @@ class PrivCountDataInjector(ServerFactory):
         Set the event times in msg to start_time and end_time, and return
         the modified event. May change the field order of tagged events.
         '''
+        # str() does not keep the microseconds of a float
+        start_time, end_time = '%.6f' % start_time, '%.6f' % end_time
         parts = msg.split()
         if len(parts) > 0:
             event_desc = "in _set_event_times for {} event".format(parts[0])
@@ -354,11 +356,11 @@ class PrivCountDataInjector(ServerFactory):
             else:
                 # PRIVCOUNT_CIRCUIT_CLOSE has start and end times
                 if PrivCountDataInjector.START_TIMESTAMP_TAG in fields:
-                    fields[PrivCountDataInjector.START_TIMESTAMP_TAG] = str(start_time)
+                    fields[PrivCountDataInjector.START_TIMESTAMP_TAG] = start_time
 
                 # PRIVCOUNT_CIRCUIT_CELL and PRIVCOUNT_HSDIR_CACHE_STORE have
                 # a single event time: the "end" time
-                fields[PrivCountDataInjector.END_TIMESTAMP_TAG] = str(end_time)
+                fields[PrivCountDataInjector.END_TIMESTAMP_TAG] = end_time
 
                 # This reorders the fields in key hash order
                 # This is not a stable order: it may change between python
@@ -371,7 +373,7 @@ class PrivCountDataInjector(ServerFactory):
         else:
             logging.warning("Wrong event field count or unknown or empty event in: '{}' {}"
                             .format(msg, event_desc))
-        return ' '.join([str(p) for p in parts])
+        return ' '.join(parts)
 
 def main():
     ap = argparse.ArgumentParser(description="Injects Tor events into a PrivCount DC")
-- 
2.43.0


From 7f2774f9a673bcb1e9c644b21937740d41dc438a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:44 +0000
Subject: [PATCH 29/45] fix: quote control port strings that contain quotes or
 backslashes, rather than failing

---
 privcount/protocol.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/privcount/protocol.py b/privcount/protocol.py
index ac1651a..6c33fa6 100644
--- a/privcount/protocol.py
+++ b/privcount/protocol.py
@@ -1206,9 +1206,9 @@ class TorControlProtocol(object):
             # quoted strings escape \ and " with \, then quote with "
             # the order of these replacements is important: they ensure that
             # " becomes \" rather than \\"
-            cont_str = cont_str.replace("\\", "\\\\")
-            cont_str = cont_str.replace("\"", "\\\"")
-            encoded = "\"" + cont_str + "\""
+            quoted_str = cont_str.replace("\\", "\\\\")
+            quoted_str = quoted_str.replace("\"", "\\\"")
+            encoded = "\"" + quoted_str + "\""
         # sanity check
         assert TorControlProtocol.decodeControllerString(encoded) == cont_str
         return encoded
-- 
2.43.0


From 2d04042a63b3c02b04fb591625e170226b45e06e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:44 +0000
Subject: [PATCH 30/45] fix: use the default value of missing IP address
 fields, rather than its name

---
 privcount/tagged_event.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/privcount/tagged_event.py b/privcount/tagged_event.py
index 0cb8b6f..1f9fcb1 100644
--- a/privcount/tagged_event.py
+++ b/privcount/tagged_event.py
@@ -441,6 +441,10 @@ def get_ip_address_value(field_name, fields, event_desc,
     Returns fields[field_name] as a string in canonical IP address form.
     If it is missing, return default.
     '''
+    if field_name not in fields:
+        assert not is_mandatory
+        return default
+
     # Canonicalise the IP address and return it as a string
     # This provides maximum compatibility with existing code
     return str(get_ip_address_object(field_name, fields, event_desc,
-- 
2.43.0


From 7f0f356bce5864c0651b076d4c7ab8cfee4a4025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:20 +0000
Subject: [PATCH 31/45] fix: apply all changes to the client configuration when
 an option is added

---
 privcount/data_collector.py | 2 +-
 privcount/share_keeper.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/privcount/data_collector.py b/privcount/data_collector.py
index de31cf0..b3b407e 100644
--- a/privcount/data_collector.py
+++ b/privcount/data_collector.py
@@ -394,7 +394,7 @@ class DataCollector(ReconnectingClientFactory, PrivCountClient):
                 changed = False
                 for k in dc_conf:
                     if k not in self.config or dc_conf[k] != self.config[k]:
-                        logging.info("updated config for key {} from {} to {}".format(k, self.config[k], dc_conf[k]))
+                        logging.info("updated config for key {} from {} to {}".format(k, self.config.get(k), dc_conf[k]))
                         self.config[k] = dc_conf[k]
                         changed = True
                 if not changed:
diff --git a/privcount/share_keeper.py b/privcount/share_keeper.py
index 6dde16b..95fe3bf 100644
--- a/privcount/share_keeper.py
+++ b/privcount/share_keeper.py
@@ -246,7 +246,7 @@ class ShareKeeper(ReconnectingClientFactory, PrivCountClient):
                 changed = False
                 for k in sk_conf:
                     if k not in self.config or sk_conf[k] != self.config[k]:
-                        logging.info("updated config for key {} from {} to {}".format(k, self.config[k], sk_conf[k]))
+                        logging.info("updated config for key {} from {} to {}".format(k, self.config.get(k), sk_conf[k]))
                         self.config[k] = sk_conf[k]
                         changed = True
                 if not changed:
-- 
2.43.0


From 760d9ca657fbde092fdd6e21d919be502c82a9e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:45 +0000
Subject: [PATCH 32/45] fix: summarise strings that leave room for one
 character beside the ellipsis

---
 privcount/log.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/privcount/log.py b/privcount/log.py
index 8d31970..dae518a 100644
--- a/privcount/log.py
+++ b/privcount/log.py
@@ -111,7 +111,7 @@ def summarise_string(long_str, max_len=100, ellipsis='...'):
         end_len = content_len / 2
         assert start_len + e_len + end_len == max_len
         summary_str = (long_str[0:start_len] + ellipsis +
-                       long_str[-end_len:])
+                       long_str[orig_len-end_len:])
         assert len(summary_str) == max_len
         return summary_str
 
-- 
2.43.0


From 7425cc98c7931ee7ddcbf6be2c4fd7d502cf05a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:45 +0000
Subject: [PATCH 33/45] fix: check the given network, rather than an undefined
 address

---
 privcount/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/privcount/config.py b/privcount/config.py
index e3c46b2..a611007 100644
--- a/privcount/config.py
+++ b/privcount/config.py
@@ -214,7 +214,7 @@ def validate_ip_network(network, strict=True):
     Otherwise, return None.
     '''
     try:
-        return ipaddress.ip_network(unicode(address), strict=strict)
+        return ipaddress.ip_network(unicode(network), strict=strict)
     except ValueError:
         return None
 
-- 
2.43.0


From b354181e15e55d00a2e87db545b01c34b9f2d197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:10 +0000
Subject: [PATCH 34/45] fix: refuse network prefixes that are out of range

---
 privcount/config.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/privcount/config.py b/privcount/config.py
index a611007..2ca671e 100644
--- a/privcount/config.py
+++ b/privcount/config.py
@@ -227,13 +227,8 @@ def validate_ip_network_address_prefix(address, prefix, strict=True):
     ip_address = validate_ip_address(address)
     if ip_address is None or ip_address.version not in [4,6]:
         return None
-    try:
-        if ip_address.version == 4:
-            return ipaddress.IPv4Network((ip_address, prefix), strict=strict)
-        else:
-            return ipaddress.IPv6Network((ip_address, prefix), strict=strict)
-    except ValueError:
-        return None
+    # The (address, prefix) constructors do not check the range of the prefix
+    return validate_ip_network(u'{}/{}'.format(ip_address, prefix), strict=strict)
 
 def _extra_keys(first, second):
     '''
-- 
2.43.0


From 15fe07ef652395b5260ae3dc0ea38d8aa494d144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:35 +0000
Subject: [PATCH 35/45] fix: plot totals of counters with different sigmas

---
 privcount/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/privcount/plot.py b/privcount/plot.py
index d1646d2..75936ce 100644
--- a/privcount/plot.py
+++ b/privcount/plot.py
@@ -578,7 +578,7 @@ def append_total_counters(counters):
 
         if total_sigma != counter['sigma']:
             logging.warning("Sigmas for {} are different in some input files. First sigma: {} Total sigma: {}"
-                            .format(name, sigma, total_sigma))
+                            .format(name, counter['sigma'], total_sigma))
 
         total_bins = []
 
-- 
2.43.0


From 4bd7096d47ddf0904a75899ea93c752028f4eeb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:35 +0000
Subject: [PATCH 36/45] fix: only report error bounds in plot results when they
 are bounded

---
 privcount/plot.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/privcount/plot.py b/privcount/plot.py
index 75936ce..c8f569f 100644
--- a/privcount/plot.py
+++ b/privcount/plot.py
@@ -751,8 +751,8 @@ def calculate_bin_reliability(counters):
 
             # work out which values were bounded
             bin['is_value_bounded'] = (bin['value'] != bin['bound_value'])
-            bin['is_error_low_bounded'] = (bin.get('bound_error_difference_low', 0) != bin.get('error_difference', 0))
-            bin['is_error_high_bounded'] = (bin.get('bound_error_difference_high', 0) != bin.get('error_difference', 0))
+            bin['is_error_low_bounded'] = (bin.get('bound_error_difference_low', 0) != counter.get('error_difference', 0))
+            bin['is_error_high_bounded'] = (bin.get('bound_error_difference_high', 0) != counter.get('error_difference', 0))
 
             # alternate representation for text output
             bin['status'] = []
-- 
2.43.0


From c9145af95a8037c1339a4896b290df9a92bc0702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:35 +0000
Subject: [PATCH 37/45] fix: plot outcomes without privacy parameters

---
 privcount/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/privcount/plot.py b/privcount/plot.py
index c8f569f..845a1b2 100644
--- a/privcount/plot.py
+++ b/privcount/plot.py
@@ -267,7 +267,7 @@ def load_input_file(path):
             histograms = data
 
         if 'Context' in data: # this is an outcome file that has privacy values
-            privacy = data['Context']['TallyServer']['Config']['noise']['privacy']
+            privacy = data['Context']['TallyServer']['Config']['noise'].get('privacy', {})
         else: # this is a tallies file that does not have privacy values
             privacy = {}
 
-- 
2.43.0


From f3e9b17d03a6ef17196d6c5d9bf954d6086142c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:35 +0000
Subject: [PATCH 38/45] fix: keep the name of label files without an extension
 in plots

---
 privcount/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/privcount/plot.py b/privcount/plot.py
index 845a1b2..038b880 100644
--- a/privcount/plot.py
+++ b/privcount/plot.py
@@ -504,7 +504,7 @@ def get_bin_labels(counter_name, bin_count, bin_labels, bin_label_source):
             # strip file paths down to the filename
             if label_str.startswith('/'):
                 _, _, label_str = label_str.rpartition('/')
-                label_str, _, _ = label_str.rpartition('.')
+                label_str, _ = os.path.splitext(label_str)
             stripped_labels.append(label_str)
 
         labels = stripped_labels
-- 
2.43.0


From f26a9e91daca2a8df454d1a44ccebd17c0b3ea59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:40 +0000
Subject: [PATCH 39/45] fix: warn about unexpected consensus parameters instead
 of failing

---
 privcount/tools/compute_fractional_position_weights | 1 +
 1 file changed, 1 insertion(+)

diff --git a/privcount/tools/compute_fractional_position_weights b/privcount/tools/compute_fractional_position_weights
index 57cb6e6..0ee52e2 100755
--- a/privcount/tools/compute_fractional_position_weights
+++ b/privcount/tools/compute_fractional_position_weights
@@ -1,6 +1,7 @@
 #!/usr/bin/env python
 
 import datetime
+import logging
 import os
 import sys
 
-- 
2.43.0


From e6ac31c1ce3e8cdd632960fe75474b7fd883a1c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:54 +0000
Subject: [PATCH 40/45] fix: count suffix matches of overlapping lists whether
 or not exact matches are counted

A host that is in one list, and below a domain of another list, was
counted in the suffix match bin of the first list when exact matches were
collected too, and in that of the second list when they were not.
---
 privcount/data_collector.py | 30 ++++++++++++------------------
 1 file changed, 12 insertions(+), 18 deletions(-)

diff --git a/privcount/data_collector.py b/privcount/data_collector.py
index b3b407e..ee33c6c 100644
--- a/privcount/data_collector.py
+++ b/privcount/data_collector.py
@@ -1472,24 +1472,18 @@ class Aggregator(ReconnectingClientFactory):
 
             if self.needs_domain_suffix_match:
 
-                # An exact match implies a suffix match
-                # (but not vice versa, and not necessarily on the same bin)
-                # exact matches match the first bin
-                # suffix matches match an arbitrary bin (which is ok, because
-                # the suffix lists should be disjoint)
-                if (self.needs_domain_exact_match and
-                    domain_exact_match_bin != float('inf')):
-                    domain_suffix_match_bin = domain_exact_match_bin
-                else:
-                    # check for a suffix match
-                    # this is O(N), but obviously correct
-                    # assert suffix_match(domain_suffix_obj, remote_host) == any([remote_host.endswith("." + domain) for domain in domain_exact_obj])
-
-                    # this is O(D), where D is the number of domain components
-                    # The TS guarantees that the lists are disjoint
-                    domain_suffix_match_bin = suffix_match(self.domain_suffix_obj,
-                                                           remote_host,
-                                                           separator=".")
+                # The exact match bin is not always the suffix match bin: if
+                # lists overlap, an exact match in one list can also have
+                # a shorter suffix in another list
+
+                # check for a suffix match
+                # this is O(N), but obviously correct
+                # assert suffix_match(domain_suffix_obj, remote_host) == any([remote_host.endswith("." + domain) for domain in domain_exact_obj])
+
+                # this is O(D), where D is the number of domain components
+                domain_suffix_match_bin = suffix_match(self.domain_suffix_obj,
+                                                       remote_host,
+                                                       separator=".")
 
                 if domain_suffix_match_bin == 0:
                     suffix_match_str = "DomainSuffixMatch"
-- 
2.43.0


From fd56915ec44ed1fa79490dcdfcc94576ae95377d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:15 +0000
Subject: [PATCH 41/45] fix: checkins during a round changed the start time of
 the round

---
 privcount/data_collector.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/privcount/data_collector.py b/privcount/data_collector.py
index ee33c6c..993c66d 100644
--- a/privcount/data_collector.py
+++ b/privcount/data_collector.py
@@ -120,12 +120,11 @@ class DataCollector(ReconnectingClientFactory, PrivCountClient):
         Return the list of counters we are collecting, or None if we haven't
         started yet.
         '''
-        if self.start_config is None:
+        if self.aggregator is None:
             return None
         else:
-            # we should have caught unknown counters when we started
-            return self.check_start_config(self.start_config,
-                                           allow_unknown_counters=False)
+            # don't use check_start_config(), it restarts the round
+            return self.aggregator.collection_counters
 
     def are_dc_events_expected(self):
         '''
-- 
2.43.0


From 7801f9e5abc3a7e1bd00b9576235966cbcb25af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:08 +0000
Subject: [PATCH 42/45] fix: the expected end of a round used the period of the
 next configuration

---
 privcount/tally_server.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/privcount/tally_server.py b/privcount/tally_server.py
index 17b8b83..51f85e0 100644
--- a/privcount/tally_server.py
+++ b/privcount/tally_server.py
@@ -1269,7 +1269,7 @@ class TallyServer(ServerFactory, PrivCountServer):
         if self.collection_phase is not None:
             starting_ts = self.collection_phase.get_start_ts()
             if starting_ts is not None:
-                status['expected_end_time'] = starting_ts + self.config['collect_period']
+                status['expected_end_time'] = starting_ts + self.collection_phase.period
 
         return status
 
-- 
2.43.0


From ea6820dcc97aaac4b94b4584562c235b32e47cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:40 +0000
Subject: [PATCH 43/45] fix: normalise traffic models with whole-number weights
 or end states

---
 privcount/traffic_model.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/privcount/traffic_model.py b/privcount/traffic_model.py
index 50f2b60..07ef293 100644
--- a/privcount/traffic_model.py
+++ b/privcount/traffic_model.py
@@ -191,7 +191,7 @@ def __normalize_traffic_model_config_helper(model_config):
     '''
 
     if 'start_probability' in model_config:
-        start_prob_sum = sum(model_config['start_probability'].values())
+        start_prob_sum = float(sum(model_config['start_probability'].values()))
         for state in model_config['start_probability']:
             model_config['start_probability'][state] /= start_prob_sum
 
@@ -207,7 +207,10 @@ def __normalize_traffic_model_config_helper(model_config):
 
     if 'transition_probability' in model_config:
         for src in model_config['transition_probability']:
-            trans_prob_sum = sum(model_config['transition_probability'][src].values())
+            trans_prob_sum = float(sum(model_config['transition_probability'][src].values()))
+            # end states have no outgoing transitions
+            if trans_prob_sum == 0.0:
+                continue
             for dst in model_config['transition_probability'][src]:
                 model_config['transition_probability'][src][dst] /= trans_prob_sum
 
-- 
2.43.0


From 9fca574beefecf8b0c58893fa1def8b602defd85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:40 +0000
Subject: [PATCH 44/45] fix: the noise tool for traffic models did not know the
 counter templates

---
 privcount/tools/compute_noise_traffic_model.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/privcount/tools/compute_noise_traffic_model.py b/privcount/tools/compute_noise_traffic_model.py
index 6e8985d..44d806c 100644
--- a/privcount/tools/compute_noise_traffic_model.py
+++ b/privcount/tools/compute_noise_traffic_model.py
@@ -5,6 +5,8 @@ import yaml
 
 import privcount.statistics_noise as psn
 
+from privcount.counter import VITERBI_PACKETS_EVENT, register_dynamic_counter
+
 ## useful constants
 NUM_SECONDS_PER_DAY = 24*60*60
 NUM_MICROSECONDS_PER_SECOND = 1000*1000
@@ -68,6 +70,11 @@ traffic_model_parameters = {
     'ExitStreamTrafficModelTransitionCount_<SRCSTATE>_<DSTSTATE>': packet_histogram_parameters,
 }
 
+# the noise allocation needs to know which events each counter uses, including
+# the templates for the counters that are defined by a particular model
+for counter in traffic_model_parameters:
+    register_dynamic_counter(counter, { VITERBI_PACKETS_EVENT })
+
 if __name__ == '__main__':
     epsilon = 0.3
     delta = 1e-3
-- 
2.43.0


From d75ce80c413e8ae344fdb9d3bcae67ce4ed8abf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:53 +0000
Subject: [PATCH 45/45] fix: the noise allocation failed for epsilons larger
 than about 5

---
 privcount/statistics_noise.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/privcount/statistics_noise.py b/privcount/statistics_noise.py
index b84424f..d30163a 100644
--- a/privcount/statistics_noise.py
+++ b/privcount/statistics_noise.py
@@ -84,6 +84,10 @@ def get_differentially_private_std(sensitivity, epsilon, delta,
     # following upper bound
     std_upper_bound = (float(sensitivity)/epsilon) * (4.0/3.0) *\
         (2 *  math.log(1.0/delta))**(0.5)
+    # the bound does not hold for large epsilons
+    while (std_upper_bound < float('inf') and
+           not satisfies_dp(sensitivity, epsilon, delta, std_upper_bound)):
+        std_upper_bound *= 2.0
     std_lower_bound = tol # use small but non-zero value for std lower-bound
     if (satisfies_dp(sensitivity, epsilon, delta, std_lower_bound) is True):
         raise ValueError('Could not find lower bound for std interval.')
@@ -148,6 +152,10 @@ def get_differentially_private_epsilon(sensitivity, sigma, delta,
     if sigma == 0.0:
         return 0.0
     epsilon_upper_bound = (float(sensitivity)/sigma) * (2.0 *  math.log(2.0/delta))**(0.5)
+    # the bound does not hold for sigmas that are small for their sensitivity
+    while (epsilon_upper_bound < float('inf') and
+           not satisfies_dp(sensitivity, epsilon_upper_bound, delta, sigma)):
+        epsilon_upper_bound *= 2.0
     epsilon_lower_bound = 0.0
     epsilon = interval_boolean_binary_search(\
         lambda x: satisfies_dp(sensitivity, x, delta, sigma), epsilon_lower_bound,
-- 
2.43.0

