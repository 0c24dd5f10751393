From 9a52172e0ff3cb63042961f8cab954a05cdfd1ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:39 +0000
Subject: [PATCH 01/24] fix: only accept HANDSHAKE4 after the client's
 HANDSHAKE2 HMAC was verified

---
 privcount/protocol.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/privcount/protocol.py b/privcount/protocol.py
index 6adb4bb..f96845e 100644
--- a/privcount/protocol.py
+++ b/privcount/protocol.py
@@ -936,7 +936,10 @@ class PrivCountServerProtocol(PrivCountProtocol):
                                        PrivCountProtocol.HANDSHAKE3))
                 self.handshake_failed()
         elif event_type == PrivCountProtocol.HANDSHAKE4:
-            if self.handshake4_verify(event_line):
+            # client_cookie is only set when the client's HANDSHAKE2 HMAC has
+            # been verified: never trust HANDSHAKE4 without it
+            if (self.client_cookie is not None and
+                self.handshake4_verify(event_line)):
                 self.handshake_succeeded()
             else:
                 self.handshake_failed()
-- 
2.43.0


From ca2073cf984a16042ea2f897e4cbff40249ce5bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:36 +0000
Subject: [PATCH 02/24] fix: reject an empty blinding share instead of applying
 random factors

---
 privcount/counter.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/privcount/counter.py b/privcount/counter.py
index c6fd576..bbf2adc 100644
--- a/privcount/counter.py
+++ b/privcount/counter.py
@@ -7238,6 +7238,9 @@ class SecureCounters(object):
         '''
         # since we generate unblinding factors based on network input, a
         # failure here should be logged, and the counters ignored
+        # an empty share is invalid: never replace it with random factors
+        if blinding_factors is None:
+            return None
         return self._derive_all_counters(blinding_factors, False)
 
     def generate_blinding_shares(self, uids):
-- 
2.43.0


From eb14e76b0973c94e24ca018c3204dc30b0a78389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:36 +0000
Subject: [PATCH 03/24] fix: don't log decrypted blinding shares when a share
 can't be imported

---
 privcount/share_keeper.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/privcount/share_keeper.py b/privcount/share_keeper.py
index b1ce3ad..0a9ab9c 100644
--- a/privcount/share_keeper.py
+++ b/privcount/share_keeper.py
@@ -157,8 +157,9 @@ class ShareKeeper(ReconnectingClientFactory, PrivCountClient):
                 # configured counters
                 # this is likely a configuration error or a programming bug,
                 # but there is also no way to detect the TS modifying the data
-                logging.warning("failed to import blinding share {} config {}"
-                                .format(share, config))
+                # the share is a decrypted secret: don't log it
+                logging.warning("failed to import blinding share from {}"
+                                .format(share.get('dc_name')))
                 # TODO: secure delete
                 del private_key
                 return None
-- 
2.43.0


From 11004bee38ac7feb1468ec42adaeeb2d75e6ca5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:31 +0000
Subject: [PATCH 04/24] fix: refuse a start command with an unexpected share
 keeper key instead of exiting

---
 privcount/data_collector.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/privcount/data_collector.py b/privcount/data_collector.py
index 13e8b9b..754d869 100644
--- a/privcount/data_collector.py
+++ b/privcount/data_collector.py
@@ -234,8 +234,8 @@ class DataCollector(ReconnectingClientFactory, PrivCountClient):
             if requested_sk_digest not in expected_sk_digests:
                 logging.info('we received an unexpected key for share keeper {}'.format(sk_uid))
                 digest_error = True
-
-            expected_sk_digests.remove(requested_sk_digest)
+            else:
+                expected_sk_digests.remove(requested_sk_digest)
 
         if digest_error or len(expected_sk_digests) != 0:
             logging.info('refusing to start collecting without required share keepers')
-- 
2.43.0


From c0d692001ee429e97d5aa7b8b4a64b53c304e3e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:31 +0000
Subject: [PATCH 05/24] fix: a refused start must not replace the recorded
 noise of a running collection

---
 privcount/data_collector.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/privcount/data_collector.py b/privcount/data_collector.py
index 754d869..72dfcac 100644
--- a/privcount/data_collector.py
+++ b/privcount/data_collector.py
@@ -200,6 +200,11 @@ class DataCollector(ReconnectingClientFactory, PrivCountClient):
         to start a new collection phase
         return None if failure, otherwise json will encode result
         '''
+        # if we are still running from a previous incarnation, we need to stop
+        # first, and keep the start config and noise of the running collection
+        if self.aggregator is not None:
+            return None
+
         # keep the start config to send to the TS at the end of the collection
         # deepcopy in case we make any modifications later
         self.start_config = deepcopy(config)
@@ -214,11 +219,6 @@ class DataCollector(ReconnectingClientFactory, PrivCountClient):
         if dc_counters is None:
             return None
 
-        # if we are still running from a previous incarnation, we need to stop
-        # first
-        if self.aggregator is not None:
-            return None
-
         # we require that only the configured share keepers be used in the
         # collection phase, because we must be able to encrypt messages to them
         expected_sk_digests = set()
-- 
2.43.0


From 8a3f66792eec1aa9e4143f3c1bb0b47b2fce9218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:31 +0000
Subject: [PATCH 06/24] fix: checking for expected events must not reset the
 collection start time

---
 privcount/data_collector.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/privcount/data_collector.py b/privcount/data_collector.py
index 72dfcac..9603cfb 100644
--- a/privcount/data_collector.py
+++ b/privcount/data_collector.py
@@ -123,9 +123,10 @@ class DataCollector(ReconnectingClientFactory, PrivCountClient):
         if self.start_config is None:
             return None
         else:
-            # we should have caught unknown counters when we started
-            return self.check_start_config(self.start_config,
-                                           allow_unknown_counters=False)
+            # we checked these counters when we started: checking the start
+            # config again would reset the start time of the collection
+            return combine_counters(self.start_config['counters'],
+                                    self.start_config['noise']['counters'])
 
     def are_dc_events_expected(self):
         '''
-- 
2.43.0


From f8e4f1aced6620b1926efa6fb136dda2930e06b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:31 +0000
Subject: [PATCH 07/24] fix: a stopped collection's start timer must not start
 the next collection early

---
 privcount/data_collector.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/privcount/data_collector.py b/privcount/data_collector.py
index 9603cfb..9de30ac 100644
--- a/privcount/data_collector.py
+++ b/privcount/data_collector.py
@@ -275,7 +275,8 @@ class DataCollector(ReconnectingClientFactory, PrivCountClient):
         # sync the time that we start listening for Tor events
         self.is_aggregator_pending = True
         aggregator_deferred = task.deferLater(reactor, defer_time,
-                                              self._start_aggregator_deferred)
+                                              self._start_aggregator_deferred,
+                                              self.aggregator)
         aggregator_deferred.addErrback(errorCallback)
         # return the generated shares now
         shares = self.aggregator.get_shares()
@@ -294,12 +295,14 @@ class DataCollector(ReconnectingClientFactory, PrivCountClient):
                      .format(len(shares), len(dc_counters), count_bins(dc_counters)))
         return shares
 
-    def _start_aggregator_deferred(self):
+    def _start_aggregator_deferred(self, aggregator):
         '''
+        Start aggregator, unless it has been stopped (or replaced) since its
+        start was scheduled.
         This function is called using deferLater, so any exceptions will be
         handled by errorCallback.
         '''
-        if self.is_aggregator_pending:
+        if self.is_aggregator_pending and self.aggregator is aggregator:
             self.is_aggregator_pending = False
             self.aggregator.start()
             # schedule a once-off check that the aggregator has connected
-- 
2.43.0


From 9ee8baa2615de2e4b7cc3c052f588de18c2a1b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:31 +0000
Subject: [PATCH 08/24] fix: discard the partial keystore when a blinding share
 can't be imported

---
 privcount/share_keeper.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/privcount/share_keeper.py b/privcount/share_keeper.py
index 0a9ab9c..1248534 100644
--- a/privcount/share_keeper.py
+++ b/privcount/share_keeper.py
@@ -162,6 +162,9 @@ class ShareKeeper(ReconnectingClientFactory, PrivCountClient):
                                 .format(share.get('dc_name')))
                 # TODO: secure delete
                 del private_key
+                # don't return a partial sum of the shares at the end of the
+                # collection
+                self.keystore = None
                 return None
 
         logging.info("successfully started and imported {} blinding shares for {} counters ({} bins)"
-- 
2.43.0


From 51d24173de158193a0d836a0a8e7b75ba40537b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:31 +0000
Subject: [PATCH 09/24] fix: apply all config changes when a reload adds a new
 key

---
 privcount/data_collector.py | 2 +-
 privcount/share_keeper.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/privcount/data_collector.py b/privcount/data_collector.py
index 9de30ac..48254f2 100644
--- a/privcount/data_collector.py
+++ b/privcount/data_collector.py
@@ -398,7 +398,7 @@ class DataCollector(ReconnectingClientFactory, PrivCountClient):
                 changed = False
                 for k in dc_conf:
                     if k not in self.config or dc_conf[k] != self.config[k]:
-                        logging.info("updated config for key {} from {} to {}".format(k, self.config[k], dc_conf[k]))
+                        logging.info("updated config for key {} from {} to {}".format(k, self.config.get(k), dc_conf[k]))
                         self.config[k] = dc_conf[k]
                         changed = True
                 if not changed:
diff --git a/privcount/share_keeper.py b/privcount/share_keeper.py
index 1248534..3bf6c61 100644
--- a/privcount/share_keeper.py
+++ b/privcount/share_keeper.py
@@ -248,7 +248,7 @@ class ShareKeeper(ReconnectingClientFactory, PrivCountClient):
                 changed = False
                 for k in sk_conf:
                     if k not in self.config or sk_conf[k] != self.config[k]:
-                        logging.info("updated config for key {} from {} to {}".format(k, self.config[k], sk_conf[k]))
+                        logging.info("updated config for key {} from {} to {}".format(k, self.config.get(k), sk_conf[k]))
                         self.config[k] = sk_conf[k]
                         changed = True
                 if not changed:
-- 
2.43.0


From e1771ddf5410d21cb14f07714a07b54fec575d88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:18 +0000
Subject: [PATCH 10/24] fix: don't tally a round when any client failed to
 return its counts

---
 privcount/tally_server.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/privcount/tally_server.py b/privcount/tally_server.py
index 029f927..0d718ae 100644
--- a/privcount/tally_server.py
+++ b/privcount/tally_server.py
@@ -2199,7 +2199,8 @@ class CollectionPhase(object):
 
         # keep going, we want the context for debugging
         tally_was_successful = False
-        if len(self.final_counts) <= 0:
+        # a tally that is missing the counts from any client is meaningless
+        if self.is_error() or len(self.final_counts) <= 0:
             logging.warning("no tally results to write!")
         else:
             tallied_counter = SecureCounters(self.counters_config,
-- 
2.43.0


From 7d500cc856b8df8efe1e3829f2567f68dadc1bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:29 +0000
Subject: [PATCH 11/24] fix: reject bins, sigmas and noise weights that are not
 numbers

NaN compares false with everything, so it passed the range checks of the
start command, and was used to generate noise.
---
 privcount/counter.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/privcount/counter.py b/privcount/counter.py
index bbf2adc..44dc4dc 100644
--- a/privcount/counter.py
+++ b/privcount/counter.py
@@ -126,11 +126,12 @@ def check_noise_weight_value(noise_weight_value, description="value"):
     Returns True if the noise weight value is valid.
     Logs a specific warning using description, and returns False if it is not.
     '''
-    if noise_weight_value < 0.0:
+    # not a number fails every comparison, so check for valid values
+    if not noise_weight_value >= 0.0:
         logging.warning("Noise weight {} must be positive, was {}".format(
                 description, noise_weight_value))
         return False
-    if noise_weight_value > max_tally_counter_value():
+    if not noise_weight_value <= max_tally_counter_value():
         logging.warning("Noise weight {} can be at most {}, was {}".format(
                 description, max_tally_counter_value(), noise_weight_value))
         return False
@@ -6460,8 +6461,8 @@ def check_bins_config(bins, allow_unknown_counters=False):
             # c is optional, and is ignored by this code
             l = bin[0]
             u = bin[1]
-            # check for inverted bounds
-            if l >= u:
+            # check for inverted bounds (or bounds that are not numbers)
+            if not l < u:
                 logging.warning("bin {} in counter {} will never count any values, because its lower bound is greater than or equal to its upper bound"
                                 .format(bin, key))
                 return False
@@ -6498,8 +6499,9 @@ def check_sigmas_config(sigmas, allow_unknown_counters=False):
             return False
     # sort names alphabetically, so the logs are in a sensible order
     for key in sorted(sigmas.keys()):
-        if sigmas[key]['sigma'] < 0.0:
-            logging.warning("invalid sigma for counter {}: less than zero".format(key))
+        # not a number fails every comparison, so check for valid values
+        if not sigmas[key]['sigma'] >= 0.0:
+            logging.warning("invalid sigma for counter {}: not a number, or less than zero".format(key))
             return False
     return True
 
-- 
2.43.0


From db38d870dc67cd3381236e5213f9337235669a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:00 +0000
Subject: [PATCH 12/24] fix: refuse a cookie or password file that is too short

readFile() only warned about a secret shorter than min_len and then returned
it, so short (even empty) cookies and passwords were used to authenticate.
---
 privcount/protocol.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/privcount/protocol.py b/privcount/protocol.py
index f96845e..c811403 100644
--- a/privcount/protocol.py
+++ b/privcount/protocol.py
@@ -1478,6 +1478,7 @@ class TorControlProtocol(object):
                                 .format(secret_file,
                                         len(secret_string),
                                         min_len))
+                return None
             if len(secret_string) > max_len:
                 logging.warning("Authentication failed, file '{}' was wrong length {}, wanted at most {}"
                                 .format(secret_file,
-- 
2.43.0


From dd84a61d5823ae901a82bbe969f540ac2ea6b822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:33 +0000
Subject: [PATCH 13/24] fix: check the answer to GETCONF EnablePrivCount

The check was only made while discovering, but we ask in the processing
state, so a relay with PrivCount turned off was never noticed.
---
 privcount/protocol.py | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/privcount/protocol.py b/privcount/protocol.py
index c811403..9e57a48 100644
--- a/privcount/protocol.py
+++ b/privcount/protocol.py
@@ -1986,17 +1986,6 @@ class TorControlClientProtocol(LineOnlyReceiver, TorControlProtocol):
                                  .format(transport_info(self.transport)))
                 self.quit()
                 return
-            # Check PrivCount is on
-            elif line.startswith("250 EnablePrivCount="):
-                _, _, privcount_enabled = line.partition("EnablePrivCount=")
-                if privcount_enabled != "1":
-                    logging.warning("Connection with {} failed: EnablePrivCount is {}"
-                                .format(transport_info(self.transport),
-                                        privcount_enabled))
-                    self.quit()
-                    return
-                else:
-                    logging.info("Confirmed that EnablePrivCount is 1")
             # It's a relay, and it's just told us its Nickname
             elif line.startswith("250 Nickname="):
                 _, _, nickname = line.partition("Nickname=")
@@ -2129,6 +2118,18 @@ class TorControlClientProtocol(LineOnlyReceiver, TorControlProtocol):
         elif self.is_processing_ns and line.startswith("."):
             # The end line for our consensus entry
             self.is_processing_ns = False
+        # Check PrivCount is on: we ask when we start processing events
+        elif (self.state == 'processing' and
+              line.startswith("250 EnablePrivCount=")):
+            _, _, privcount_enabled = line.partition("EnablePrivCount=")
+            if privcount_enabled != "1":
+                logging.warning("Connection with {} failed: EnablePrivCount is {}"
+                                .format(transport_info(self.transport),
+                                        privcount_enabled))
+                self.quit()
+                return
+            else:
+                logging.info("Confirmed that EnablePrivCount is 1")
         elif self.state == 'waiting' and line.startswith("2"):
             # log ok events while we're waiting for round start
             self.handleUnexpectedLine(line)
-- 
2.43.0


From 670848aa7c1756341b668a7b90b411487d42dcdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:50 +0000
Subject: [PATCH 14/24] fix: count the circuits of the Active/Inactive
 Success/Failure counters

The counter name template had one placeholder too few, so the counters
like EntryActiveSuccessCircuitCount were never incremented.
---
 privcount/data_collector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/privcount/data_collector.py b/privcount/data_collector.py
index 48254f2..bdd4feb 100644
--- a/privcount/data_collector.py
+++ b/privcount/data_collector.py
@@ -2539,7 +2539,7 @@ class Aggregator(ReconnectingClientFactory):
                                            inc=inc)
 
             # Prefix Active/Inactive Failure/Success Circuit Suffix
-            self.secure_counters.increment('{}{}Circuit{}'
+            self.secure_counters.increment('{}{}{}Circuit{}'
                                            .format(counter_prefix, activity, status, counter_suffix),
                                            bin=bin,
                                            inc=inc)
-- 
2.43.0


From 9650a9521865d3a0a91fa4e780ca48bcfa890a4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:50 +0000
Subject: [PATCH 15/24] fix: spell Tor2Web like the counters do

The circuit counters are called *Tor2Web*, so the counters that the data
collector tried to increment, *Tor2web*, were never in use.
---
 privcount/data_collector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/privcount/data_collector.py b/privcount/data_collector.py
index bdd4feb..e4a6b23 100644
--- a/privcount/data_collector.py
+++ b/privcount/data_collector.py
@@ -2718,7 +2718,7 @@ class Aggregator(ReconnectingClientFactory):
             if hs_role is None:
                 hop = None
             elif hs_role == "Client":
-                hop = "Tor2web"
+                hop = "Tor2Web"
             else:
                 hop = "SingleOnion"
         else:
-- 
2.43.0


From f3a5c192ee2742cb632aa43f5036e86005eb882a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:31 +0000
Subject: [PATCH 16/24] fix: put the onion service version where the counter
 names have it

The Client and Service circuit counters are called Intro2Client... and
Rend3MultiHopService..., but the version was added after the role, so these
counters were never incremented.
---
 privcount/data_collector.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/privcount/data_collector.py b/privcount/data_collector.py
index e4a6b23..016825f 100644
--- a/privcount/data_collector.py
+++ b/privcount/data_collector.py
@@ -2545,6 +2545,7 @@ class Aggregator(ReconnectingClientFactory):
                                            inc=inc)
 
     def _increment_circuit_close_hs_status_counters(self, counter_prefix,
+                                                    counter_role,
                                                     counter_suffix,
                                                     hs_version,
                                                     is_active,
@@ -2554,16 +2555,19 @@ class Aggregator(ReconnectingClientFactory):
         '''
         Increment bin by inc for the counter variants starting with
         counter_prefix and ending in counter_suffix, using hs_version,
-        is_active and is_failure to create counter names.
+        counter_role, is_active and is_failure to create counter names.
+        The hs_version is placed between counter_prefix and counter_role.
 
         Unknown counter names are ignored.
         '''
         assert counter_prefix is not None
+        assert counter_role is not None
         assert counter_suffix is not None
         assert hs_version is None or hs_version == 2 or hs_version == 3
 
         # HSDir/Intro/Rend ...
-        self._increment_circuit_close_status_counters(counter_prefix,
+        self._increment_circuit_close_status_counters('{}{}'
+                                                      .format(counter_prefix, counter_role),
                                                       counter_suffix,
                                                       is_active,
                                                       is_failure,
@@ -2577,8 +2581,8 @@ class Aggregator(ReconnectingClientFactory):
         else:
             hs_version_name = '{}'.format(hs_version)
 
-        self._increment_circuit_close_status_counters('{}{}'
-                                                      .format(counter_prefix, hs_version_name),
+        self._increment_circuit_close_status_counters('{}{}{}'
+                                                      .format(counter_prefix, hs_version_name, counter_role),
                                                       counter_suffix,
                                                       is_active,
                                                       is_failure,
@@ -2727,6 +2731,7 @@ class Aggregator(ReconnectingClientFactory):
         # HSDir /2/3 /Failure/Success Circuit Count/{Inbound,Outbound}Cell{Count,Histogram}/CellRatio/LifeTime
         # Intro/Rend /U/2/3 /Active/Inactive /Failure/Success Circuit Count/{Inbound,Outbound}Cell{Count,Histogram}/(Active)CellRatio/LifeTime
         self._increment_circuit_close_hs_status_counters(position,
+                                                         "",
                                                          counter_suffix,
                                                          hs_version,
                                                          is_active,
@@ -2737,8 +2742,8 @@ class Aggregator(ReconnectingClientFactory):
         if hs_role is not None:
             # HSDir /2/3 Client/Service /Failure/Success Circuit Count/{Inbound,Outbound}Cell{Count,Histogram}/CellRatio/LifeTime
             # Intro/Rend /U/2/3 Client/Service /Active/Inactive /Failure/Success Circuit Count/{Inbound,Outbound}Cell{Count,Histogram}/(Active)CellRatio/LifeTime
-            self._increment_circuit_close_hs_status_counters('{}{}'
-                                                             .format(position, hs_role),
+            self._increment_circuit_close_hs_status_counters(position,
+                                                             hs_role,
                                                              counter_suffix,
                                                              hs_version,
                                                              is_active,
@@ -2749,8 +2754,9 @@ class Aggregator(ReconnectingClientFactory):
             assert hop is not None
             # HSDir /2/3 {Tor2Web,MultiHop}Client/{SingleOnion,MultiHop}Service /Failure/Success Circuit Count/{Inbound,Outbound}Cell{Count,Histogram}/CellRatio/LifeTime
             # Intro/Rend /U/2/3 {Tor2Web,MultiHop}Client/{SingleOnion,MultiHop}Service /Active/Inactive /Failure/Success Circuit Count/{Inbound,Outbound}Cell{Count,Histogram}/(Active)CellRatio/LifeTime
-            self._increment_circuit_close_hs_status_counters('{}{}{}'
-                                                             .format(position, hop, hs_role),
+            self._increment_circuit_close_hs_status_counters(position,
+                                                             '{}{}'
+                                                             .format(hop, hs_role),
                                                              counter_suffix,
                                                              hs_version,
                                                              is_active,
-- 
2.43.0


From ae15fd7c39a7bea5773cf262bb77d722ba88b6e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:43 +0000
Subject: [PATCH 17/24] fix: look for a domain suffix match when there is no
 exact match

_exact_match_bin() answers inf when no list matches, not None, so with exact
match counters in use, suffix matches were never looked for.
---
 privcount/data_collector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/privcount/data_collector.py b/privcount/data_collector.py
index 016825f..9452a1a 100644
--- a/privcount/data_collector.py
+++ b/privcount/data_collector.py
@@ -1481,7 +1481,7 @@ class Aggregator(ReconnectingClientFactory):
                 # exact matches match the first bin
                 # suffix matches match an arbitrary bin (which is ok, because
                 # the suffix lists should be disjoint)
-                if self.needs_domain_exact_match and domain_exact_match_bin is not None:
+                if self.needs_domain_exact_match and domain_exact_match_bin != float('inf'):
                     domain_suffix_match_bin = domain_exact_match_bin
                 else:
                     # check for a suffix match
-- 
2.43.0


From 0bc6a8c823e18914ace5166597a1a8c626dc542e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:18 +0000
Subject: [PATCH 18/24] fix: do not log the fields of tor events that arrive
 while not processing

---
 privcount/protocol.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/privcount/protocol.py b/privcount/protocol.py
index 9e57a48..cfd0d87 100644
--- a/privcount/protocol.py
+++ b/privcount/protocol.py
@@ -2168,8 +2168,10 @@ class TorControlClientProtocol(LineOnlyReceiver, TorControlProtocol):
             logging.debug("Connection with {}: ok response: '{}'"
                           .format(transport_info(self.transport), line))
         elif line.startswith("650 PRIVCOUNT_"):
+            # never log the event's fields: they are user data
             logging.warning("Connection with {}: unexpected event: '{}'"
-                            .format(transport_info(self.transport), line))
+                            .format(transport_info(self.transport),
+                                    line.split(" ")[1]))
         elif line.startswith("5"):
             logging.warning("Connection with {}: unexpected response: '{}'"
                             .format(transport_info(self.transport), line))
-- 
2.43.0


From e0e4cb0025c53bea0dc4d125a6a5230325bfcd05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:24 +0000
Subject: [PATCH 19/24] fix: check circuit event flags before they are used to
 adjust other flags

An event with an invalid flag (such as IsDirFlag=2) ended the handler with an
assertion, rather than being ignored like other malformed events.
---
 privcount/data_collector.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/privcount/data_collector.py b/privcount/data_collector.py
index 9452a1a..419051a 100644
--- a/privcount/data_collector.py
+++ b/privcount/data_collector.py
@@ -1953,11 +1953,6 @@ class Aggregator(ReconnectingClientFactory):
         if prefix is None:
             prefix = ""
 
-        # Work around some unexpected flags from Tor
-        Aggregator.make_circuit_common_fields_valid(fields, event_desc,
-                                                    is_mandatory=is_mandatory,
-                                                    prefix=prefix)
-
         # Validate the potentially mandatory fields
 
         if not is_float_valid("EventTimestamp",
@@ -2090,6 +2085,11 @@ class Aggregator(ReconnectingClientFactory):
                             min_value=1, max_value=None):
             return False
 
+        # Work around some unexpected flags from Tor, now we know they are flags
+        Aggregator.make_circuit_common_fields_valid(fields, event_desc,
+                                                    is_mandatory=is_mandatory,
+                                                    prefix=prefix)
+
         # if everything passed, this much is ok
         return True
 
-- 
2.43.0


From 9b97c1b8bf8fe541d0dea7544f60d24426b7ee94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:11 +0000
Subject: [PATCH 20/24] fix: refuse times that are not finite numbers

float() accepts nan and inf, and comparisons with nan are always false, so nan
passed the range check, and then failed an assertion in the middle of counting
a connection or stream.
---
 privcount/data_collector.py | 5 +++++
 privcount/tagged_event.py   | 9 ++++++++-
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/privcount/data_collector.py b/privcount/data_collector.py
index 419051a..79a2cd6 100644
--- a/privcount/data_collector.py
+++ b/privcount/data_collector.py
@@ -1349,6 +1349,11 @@ class Aggregator(ReconnectingClientFactory):
         # TODO: secure delete
         #del items
 
+        # float() accepts nan and inf, but we can't calculate with them
+        if math.isnan(end - start) or math.isinf(end - start):
+            logging.warning("Ignored stream event with malformed times")
+            return True
+
         # only count streams with legitimate transfers
         totalbw = readbw + writebw
         if readbw < 0 or writebw < 0 or totalbw <= 0:
diff --git a/privcount/tagged_event.py b/privcount/tagged_event.py
index e6213b3..9370f37 100644
--- a/privcount/tagged_event.py
+++ b/privcount/tagged_event.py
@@ -8,6 +8,8 @@ See LICENSE for licensing information
 
 import logging
 
+from math import isinf, isnan
+
 from privcount.config import validate_ip_address
 from privcount.log import summarise_string
 
@@ -226,7 +228,7 @@ def is_float_valid(field_name, fields, event_desc,
                    min_value=None, max_value=None):
     '''
     Check that fields[field_name] passes is_field_valid(), is a valid
-    float (includes integral values), and is between min_value and
+    finite float (includes integral values), and is between min_value and
     max_value (inclusive). Use None for no range check.
 
     Floating-point values can be inaccurate when compared: if you want equal
@@ -249,6 +251,11 @@ def is_float_valid(field_name, fields, event_desc,
                         .format(field_name, fields[field_name], e,
                                 event_desc))
         return False
+    if isnan(field_value) or isinf(field_value):
+        # float() accepts them, but we can't calculate with them
+        logging.warning("Ignored {} '{}', must be a finite float {}"
+                        .format(field_name, field_value, event_desc))
+        return False
     if min_value is not None and field_value < min_value:
         logging.warning("Ignored {} '{}', must be at least {} {}"
                         .format(field_name, field_value, min_value,
-- 
2.43.0


From 5121a68e0ab12f6fc988277840dc4b8eb6f4278c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:54 +0000
Subject: [PATCH 21/24] fix: process match lists again when their order or
 number changes

Reordered lists were not processed again, because none of them had changed, so
the list bins kept counting the lists in their old order. Removing a list made
every config refresh fail.
---
 privcount/tally_server.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/privcount/tally_server.py b/privcount/tally_server.py
index 0d718ae..d1c6b44 100644
--- a/privcount/tally_server.py
+++ b/privcount/tally_server.py
@@ -434,6 +434,10 @@ class TallyServer(ServerFactory, PrivCountServer):
                 new_config[files_key][i] = file_path
                 if has_list_changed:
                     has_any_previous_list_changed = True
+            # the order or the number of lists can change, even if none of the
+            # lists has changed
+            if new_config[lists_key] != old_match_lists:
+                has_any_previous_list_changed = True
             if not has_any_previous_list_changed:
                 # skip processing the lists into new_processed_config,
                 # because they have not changed
-- 
2.43.0


From f81966edfc072eb7e99b6fe1b67febf6e59d19a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:11 +0000
Subject: [PATCH 22/24] fix: let the HSDir upload delay histograms have more
 than one bin

---
 privcount/counter.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/privcount/counter.py b/privcount/counter.py
index 44dc4dc..781f285 100644
--- a/privcount/counter.py
+++ b/privcount/counter.py
@@ -6420,7 +6420,10 @@ def check_bin_count_matches_name(bins):
         # handle template counters by stripping the non-template part
         key_template, _, _ = key.partition("_")
         # the TrafficModel DelayTime counters are single bin
-        if key_template.endswith("Count") or key_template.endswith("DelayTime"):
+        # (but the UploadDelayTime counters are histograms)
+        if (key_template.endswith("Count") or
+            key_template.endswith("TrafficModelDelayTime") or
+            key_template.endswith("LogDelayTime")):
             if bin_count != 1:
                 logging.warning("counter {} ends in Count, but has {} bins: {}"
                                 .format(key, bin_count, bins[key]))
-- 
2.43.0


From 88325aec9f3a6c4563095e3ae59f285a8bf4d05a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:38 +0000
Subject: [PATCH 23/24] fix: name the circuit count of a stream model like its
 counter

---
 privcount/traffic_model.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/privcount/traffic_model.py b/privcount/traffic_model.py
index 7e36aa5..945cb8d 100644
--- a/privcount/traffic_model.py
+++ b/privcount/traffic_model.py
@@ -504,14 +504,16 @@ class HiddenMarkovModel(object):
         ExitStreamTrafficModelStreamCount
         ExitStreamTrafficModelTransitionCount
 
+        ExitCircuitTrafficModelCircuitCount
         ExitCircuitTrafficModelDelayTime
         ExitCircuitTrafficModelEmissionCount
         ExitCircuitTrafficModelLogDelayTime
         ExitCircuitTrafficModelSquaredLogDelayTime
-        ExitCircuitTrafficModelStreamCount
         ExitCircuitTrafficModelTransitionCount
         '''
-        static_labels = ['{}StreamCount'.format(self.prefix),
+        # packet models count streams, and stream models count circuits
+        total = 'CircuitCount' if self.prefix.startswith('ExitCircuit') else 'StreamCount'
+        static_labels = ['{}{}'.format(self.prefix, total),
                          '{}EmissionCount'.format(self.prefix),
                          '{}TransitionCount'.format(self.prefix),
                          '{}DelayTime'.format(self.prefix),
-- 
2.43.0


From eb55623a10873b822c279b4886ee861cc6f2ce95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:04 +0000
Subject: [PATCH 24/24] fix: don't log the tor control password

TorControlClientProtocol.sendLine logs every line it sends at debug level,
including the AUTHENTICATE line, which contains the password for
HASHEDPASSWORD authentication.
---
 privcount/protocol.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/privcount/protocol.py b/privcount/protocol.py
index cfd0d87..f7f8290 100644
--- a/privcount/protocol.py
+++ b/privcount/protocol.py
@@ -1808,8 +1808,13 @@ class TorControlClientProtocol(LineOnlyReceiver, TorControlProtocol):
         '''
         overrides twisted function
         '''
+        # don't log the tor password
+        if line.startswith("AUTHENTICATE "):
+            log_line = "AUTHENTICATE ..."
+        else:
+            log_line = line
         logging.debug("Sending line '{}' to {}"
-                      .format(line, transport_info(self.transport)))
+                      .format(log_line, transport_info(self.transport)))
         self.check_line_length(line, False, False)
         # make sure we don't issue a SETCONF when we're not supposed to
         if line.startswith("SETCONF"):
-- 
2.43.0

