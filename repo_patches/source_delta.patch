From 035eebac41607f778d03482c1e8a86e5be68e07f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:10 +0000
Subject: [PATCH 01/41] fix: do not merge routes with different sort orders

---
 processors/routeduplicateremover.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/processors/routeduplicateremover.go b/processors/routeduplicateremover.go
index 634690e..1c763d5 100755
--- a/processors/routeduplicateremover.go
+++ b/processors/routeduplicateremover.go
@@ -283,6 +283,7 @@ func (rdr RouteDuplicateRemover) routeEquals(a *gtfs.Route, b *gtfs.Route, feed
 		a.Continuous_drop_off == b.Continuous_drop_off &&
 		a.Continuous_pickup == b.Continuous_pickup &&
 		((a.Url != nil && b.Url != nil && a.Url.String() == b.Url.String()) || a.Url == b.Url) &&
+		a.Sort_order == b.Sort_order &&
 		a.Color == b.Color &&
 		a.Text_color == b.Text_color
 }
-- 
2.43.0


From 79af61a19e3b003110b47bd759dc130e3bee0c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:10 +0000
Subject: [PATCH 02/41] fix: do not merge trips with different directions
 (non-fuzzy)

---
 processors/tripduplicateremover.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/processors/tripduplicateremover.go b/processors/tripduplicateremover.go
index a62ecaa..66d48ea 100755
--- a/processors/tripduplicateremover.go
+++ b/processors/tripduplicateremover.go
@@ -435,6 +435,7 @@ func (m *TripDuplicateRemover) tripAttrEq(a *gtfs.Trip, b *gtfs.Trip, feed *gtfs
 	}
 
 	return addFldsEq && a.Wheelchair_accessible == b.Wheelchair_accessible &&
+		a.Direction_id == b.Direction_id &&
 		a.Bikes_allowed == b.Bikes_allowed &&
 		(a.Short_name == b.Short_name || (a.Short_name != nil && b.Short_name != nil && *a.Short_name == *b.Short_name)) &&
 		(a.Headsign == b.Headsign || (m.Fuzzy && (a.Headsign == nil || b.Headsign == nil)) || (a.Headsign != nil && b.Headsign != nil && *a.Headsign == *b.Headsign || (m.Fuzzy && (strings.Contains(*b.Headsign, *a.Headsign) || strings.Contains(*a.Headsign, *b.Headsign))))) &&
-- 
2.43.0


From 35d0951fe02545b234c471cb79c57f56d1472c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:01 +0000
Subject: [PATCH 03/41] fix: move every transfer of a merged stop to the
 surviving stop

---
 processors/stopduplicateremover.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/processors/stopduplicateremover.go b/processors/stopduplicateremover.go
index 78c90ff..fa5024b 100755
--- a/processors/stopduplicateremover.go
+++ b/processors/stopduplicateremover.go
@@ -199,6 +199,12 @@ func (sdr StopDuplicateRemover) combineStops(feed *gtfsparser.Feed, stops []*gtf
 		}
 
 		for _, tk := range transfers[s] {
+			val, ok := feed.Transfers[tk]
+			if !ok {
+				// already moved via the other stop of the transfer
+				continue
+			}
+
 			// update the  key
 			tk_new := tk
 
@@ -212,12 +218,16 @@ func (sdr StopDuplicateRemover) combineStops(feed *gtfsparser.Feed, stops []*gtf
 			}
 
 			if _, ok := feed.Transfers[tk_new]; !ok {
-				feed.Transfers[tk_new] = feed.Transfers[tk]
-				delete(feed.Transfers, tk)
+				feed.Transfers[tk_new] = val
 
 				// add new transfer to transfer refs
-				transfers[ref] = append(transfers[ref], tk_new)
+				transfers[tk_new.From_stop] = append(transfers[tk_new.From_stop], tk_new)
+				if tk_new.From_stop != tk_new.To_stop {
+					transfers[tk_new.To_stop] = append(transfers[tk_new.To_stop], tk_new)
+				}
 			}
+
+			delete(feed.Transfers, tk)
 		}
 
 		for i, p := range pathways[s] {
-- 
2.43.0


From f7a4d95a6976468cbe75ff4cd33920d8ff68c45f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:02 +0000
Subject: [PATCH 04/41] fix: keep additional transfer fields when stops are
 merged

---
 processors/stopduplicateremover.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/processors/stopduplicateremover.go b/processors/stopduplicateremover.go
index fa5024b..701be8a 100755
--- a/processors/stopduplicateremover.go
+++ b/processors/stopduplicateremover.go
@@ -220,6 +220,13 @@ func (sdr StopDuplicateRemover) combineStops(feed *gtfsparser.Feed, stops []*gtf
 			if _, ok := feed.Transfers[tk_new]; !ok {
 				feed.Transfers[tk_new] = val
 
+				// also move the additional fields from CSV
+				for k := range feed.TransfersAddFlds {
+					if fld, ok := feed.TransfersAddFlds[k][tk]; ok {
+						feed.TransfersAddFlds[k][tk_new] = fld
+					}
+				}
+
 				// add new transfer to transfer refs
 				transfers[tk_new.From_stop] = append(transfers[tk_new.From_stop], tk_new)
 				if tk_new.From_stop != tk_new.To_stop {
@@ -227,7 +234,7 @@ func (sdr StopDuplicateRemover) combineStops(feed *gtfsparser.Feed, stops []*gtf
 				}
 			}
 
-			delete(feed.Transfers, tk)
+			feed.DeleteTransfer(tk)
 		}
 
 		for i, p := range pathways[s] {
-- 
2.43.0


From 22aa779c33e7c289ee33967bc8cfd2138042fad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:35 +0000
Subject: [PATCH 05/41] fix: keep stations without stops when reclustering

The mean similarity of a station to an empty list of stops is 0/0 = NaN,
which compares false with everything, so no station of the cluster was
chosen as its parent and all of them were deleted.
---
 processors/stopreclusterer.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/processors/stopreclusterer.go b/processors/stopreclusterer.go
index 3e4fcef..9fb2e21 100755
--- a/processors/stopreclusterer.go
+++ b/processors/stopreclusterer.go
@@ -234,7 +234,9 @@ func (m *StopReclusterer) writeCluster(cl *StopCluster, feed *gtfsparser.Feed) {
 			for _, c := range cl.Childs {
 				cursimi += m.stopSimi(p, c)
 			}
-			cursimi = cursimi / float32(len(cl.Childs))
+			if len(cl.Childs) > 0 {
+				cursimi = cursimi / float32(len(cl.Childs))
+			}
 			if cursimi >= bestsimi {
 				parent = p
 				bestsimi = cursimi
-- 
2.43.0


From d8a2a6eb971adc9b78a2b6ed71c24f08cdd6d5d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:37 +0000
Subject: [PATCH 06/41] fix: redirect every transfer of a station merged by the
 reclusterer

A transfer whose redirected key already existed was left behind and kept
referring to the deleted station; additional fields of redirected transfers
were lost.
---
 processors/stopreclusterer.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/processors/stopreclusterer.go b/processors/stopreclusterer.go
index 9fb2e21..f42c169 100755
--- a/processors/stopreclusterer.go
+++ b/processors/stopreclusterer.go
@@ -264,10 +264,21 @@ func (m *StopReclusterer) writeCluster(cl *StopCluster, feed *gtfsparser.Feed) {
 				tk_new.To_stop = parent
 			}
 
+			if tk_new == tk {
+				continue
+			}
+
 			if _, ok := feed.Transfers[tk_new]; !ok {
 				feed.Transfers[tk_new] = tv
-				delete(feed.Transfers, tk)
+
+				for _, vals := range feed.TransfersAddFlds {
+					if val, ok := vals[tk]; ok {
+						vals[tk_new] = val
+					}
+				}
 			}
+
+			feed.DeleteTransfer(tk)
 		}
 
 		for _, p := range feed.Pathways {
-- 
2.43.0


From 3833329538da6036482a156f6f679b019c975a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:26 +0000
Subject: [PATCH 07/41] fix: define the similarity of stop names without
 distinguishing words

If a stop name only has words which occur in all stops, its TF-IDF vector is
zero and the cosine similarity was 0/0 = NaN. Clusters at any distance were
then merged and lost their stations.
---
 processors/util.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/processors/util.go b/processors/util.go
index f2899d8..4e8fe42 100755
--- a/processors/util.go
+++ b/processors/util.go
@@ -148,6 +148,14 @@ func cosSimi(a map[int]float64, b map[int]float64) float64 {
 		}
 	}
 
+	if s1 == 0 || s2 == 0 {
+		// all words of a or b occur in every stop; if this holds for both, they consist of the same words
+		if s1 == s2 {
+			return 1
+		}
+		return 0
+	}
+
 	return sumA / (math.Sqrt(s1) * math.Sqrt(s2))
 }
 
-- 
2.43.0


From 4a10366eff6bc6f86fdd91297ca713f63e712565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:27 +0000
Subject: [PATCH 08/41] fix: do not crash when reclustering a feed without
 stops

---
 processors/stopreclusterer.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/processors/stopreclusterer.go b/processors/stopreclusterer.go
index f42c169..a5008f8 100755
--- a/processors/stopreclusterer.go
+++ b/processors/stopreclusterer.go
@@ -163,7 +163,9 @@ func (m StopReclusterer) Run(feed *gtfsparser.Feed) {
 
 	// take the top merge candidate from the PQ and merge it until the top candidate
 	// has priority < 0.5
-	for top := heap.Pop(&pq).(*Item); len(pq.Items) > 0; top = heap.Pop(&pq).(*Item) {
+	for len(pq.Items) > 1 {
+		top := heap.Pop(&pq).(*Item)
+
 		// we can break, there will only be merge candidates below the threshold from now on
 		if top.priority < 0.5 {
 			break
-- 
2.43.0


From ee1f965955b372fc6470e11c6ec6b65fdd2a618a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:53 +0000
Subject: [PATCH 09/41] fix: compare the URLs of stops by content

Each parsed stop has its own URL object, so two identical stops with a URL
were never merged.
---
 processors/stopduplicateremover.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/processors/stopduplicateremover.go b/processors/stopduplicateremover.go
index 701be8a..597f14d 100755
--- a/processors/stopduplicateremover.go
+++ b/processors/stopduplicateremover.go
@@ -411,7 +411,7 @@ func (sdr StopDuplicateRemover) stopEquals(a *gtfs.Stop, b *gtfs.Stop, feed *gtf
 			((distSApprox(a, b) <= sdr.DistThresholdStop/2 && parentsEqual) || a.Name == b.Name) &&
 			a.Desc == b.Desc &&
 			a.Zone_id == b.Zone_id &&
-			(a.Url == b.Url || a.Url == nil || b.Url == nil) &&
+			(a.Url == nil || b.Url == nil || a.Url.String() == b.Url.String()) &&
 			a.Location_type == b.Location_type &&
 			a.Parent_station == b.Parent_station &&
 			a.Timezone.Equals(b.Timezone) &&
@@ -425,7 +425,7 @@ func (sdr StopDuplicateRemover) stopEquals(a *gtfs.Stop, b *gtfs.Stop, feed *gtf
 		a.Name == b.Name &&
 		a.Desc == b.Desc &&
 		a.Zone_id == b.Zone_id &&
-		a.Url == b.Url &&
+		((a.Url != nil && b.Url != nil && a.Url.String() == b.Url.String()) || a.Url == b.Url) &&
 		a.Location_type == b.Location_type &&
 		a.Parent_station == b.Parent_station &&
 		a.Timezone.Equals(b.Timezone) &&
-- 
2.43.0


From b8e69dfc270f5c07ce031889254a254f603cdc25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:59 +0000
Subject: [PATCH 10/41] fix: document all options set by the shorthand options

---
 gtfstidy.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/gtfstidy.go b/gtfstidy.go
index ec0cce0..09d6985 100755
--- a/gtfstidy.go
+++ b/gtfstidy.go
@@ -119,10 +119,10 @@ func main() {
 	endDateFilter := flag.StringP("date-end", "", "", "end date filter, as YYYYMMDD")
 
 	fixShortHand := flag.BoolP("fix", "", false, "shorthand for -eDnz -p '-'")
-	compressShortHand := flag.BoolP("compress", "", false, "shorthand for -OSRCcIAP")
-	minimizeShortHand := flag.BoolP("Compress", "", false, "shorthand for -OSRCcIAPdT --red-stops-fuzzy --red-trips-fuzzy, like --compress, but additionally compress stop times into frequencies, use fuzzy matching for redundant trip and stop removal and use dense character ids. The latter destroys any existing external references (like in GTFS realtime streams)")
-	mergeShortHand := flag.BoolP("merge", "", false, "shorthand for -ARPICO")
-	fuzzyMergeShortHand := flag.BoolP("Merge", "", false, "shorthand for -EARPICO --red-trips-fuzzy --red-stops-fuzzy")
+	compressShortHand := flag.BoolP("compress", "", false, "shorthand for -OsSRCcIAP")
+	minimizeShortHand := flag.BoolP("Compress", "", false, "shorthand for -OsSRCcIAPdT --red-stops-fuzzy --red-trips-fuzzy, like --compress, but additionally compress stop times into frequencies, use fuzzy matching for redundant trip and stop removal and use dense character ids. The latter destroys any existing external references (like in GTFS realtime streams)")
+	mergeShortHand := flag.BoolP("merge", "", false, "shorthand for -ARPICcO")
+	fuzzyMergeShortHand := flag.BoolP("Merge", "", false, "shorthand for -EARPICcO --red-trips-fuzzy --red-stops-fuzzy")
 
 	assumeCleanCsv := flag.BoolP("assume-clean-csv", "", false, "assume clean csv (no leading spaces, clean line breaks)")
 	useDefaultValuesOnError := flag.BoolP("default-on-errs", "e", false, "if non-required fields have errors, fall back to the default values")
@@ -139,7 +139,7 @@ func main() {
 
 	idPrefix := flag.StringP("prefix", "", "", "prefix used before all ids")
 
-	keepIds := flag.BoolP("keep-ids", "", false, "preserve station, fare, shape, route, trip, level, agency, pathway, and service IDs")
+	keepIds := flag.BoolP("keep-ids", "", false, "preserve station, block, fare, shape, route, trip, level, agency, pathway, and service IDs")
 	keepStationIds := flag.BoolP("keep-station-ids", "", false, "preserve station IDs")
 	keepBlockIds := flag.BoolP("keep-block-ids", "", false, "preserve block IDs")
 	keepFareIds := flag.BoolP("keep-fare-ids", "", false, "preserve fare IDs")
-- 
2.43.0


From a55c4dc027eacbb77aceb348604e192ce5bb892a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:57 +0000
Subject: [PATCH 11/41] fix: exit with a nonzero status after an internal error
 or an invalid option value

---
 gtfstidy.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gtfstidy.go b/gtfstidy.go
index 09d6985..e2daefb 100755
--- a/gtfstidy.go
+++ b/gtfstidy.go
@@ -212,6 +212,7 @@ func main() {
 	defer func() {
 		if r := recover(); r != nil {
 			fmt.Fprintln(os.Stderr, "Error:", r)
+			os.Exit(1)
 		}
 	}()
 
-- 
2.43.0


From 203f28737a80f6972ab2ea1e92c47221c88de3fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:58 +0000
Subject: [PATCH 12/41] fix: reject bounding boxes that do not consist of two
 coordinates

---
 gtfstidy.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/gtfstidy.go b/gtfstidy.go
index e2daefb..4f36a7a 100755
--- a/gtfstidy.go
+++ b/gtfstidy.go
@@ -395,6 +395,12 @@ func main() {
 			}
 		}
 
+		if len(bbox) != 0 && len(bbox) != 2 {
+			fmt.Fprintf(os.Stderr, "\nCould not parse bounding box filter: ")
+			fmt.Fprintf(os.Stderr, "expected exactly two latitude,longitude pairs.\n")
+			os.Exit(1)
+		}
+
 		if len(bbox) == 2 {
 			poly := make([][2]float64, 4)
 
-- 
2.43.0


From 0170f97e3bd863b85c727dbed546a92bad3dad0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:59 +0000
Subject: [PATCH 13/41] fix: reject filter dates with trailing characters

---
 gtfstidy.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gtfstidy.go b/gtfstidy.go
index 4f36a7a..e79b1d9 100755
--- a/gtfstidy.go
+++ b/gtfstidy.go
@@ -41,8 +41,8 @@ func getGtfsPoly(poly [][][]float64) gtfsparser.Polygon {
 func parseDate(str string) gtfs.Date {
 	var day, month, year int
 	var e error
-	if len(str) < 8 {
-		e = fmt.Errorf("only has %d characters, expected 8", len(str))
+	if len(str) != 8 {
+		e = fmt.Errorf("has %d characters, expected 8", len(str))
 	}
 	if e == nil {
 		day, e = strconv.Atoi(str[6:8])
-- 
2.43.0


From c8a6c08bc168a6e4a4734c36d91095ad2cd99f5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:59 +0000
Subject: [PATCH 14/41] fix: close polygon filters whose ends share only their
 longitude

---
 gtfstidy.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gtfstidy.go b/gtfstidy.go
index e79b1d9..9f1d911 100755
--- a/gtfstidy.go
+++ b/gtfstidy.go
@@ -373,7 +373,7 @@ func main() {
 		}
 
 		// ensure polygon is closed
-		if len(poly) > 1 && (poly[0][0] != poly[len(poly)-1][0] || poly[0][0] != poly[len(poly)-1][0]) {
+		if len(poly) > 1 && (poly[0][0] != poly[len(poly)-1][0] || poly[0][1] != poly[len(poly)-1][1]) {
 			poly = append(poly, [2]float64{poly[0][0], poly[0][1]})
 		}
 
@@ -410,7 +410,7 @@ func main() {
 			poly[3] = [2]float64{bbox[1][0], bbox[0][1]}
 
 			// ensure polygon is closed
-			if len(poly) > 1 && (poly[0][0] != poly[len(poly)-1][0] || poly[0][0] != poly[len(poly)-1][0]) {
+			if len(poly) > 1 && (poly[0][0] != poly[len(poly)-1][0] || poly[0][1] != poly[len(poly)-1][1]) {
 				poly = append(poly, [2]float64{poly[0][0], poly[0][1]})
 			}
 
-- 
2.43.0


From fe628b2430f1de3fc7cde9b254b751cd8243800f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:59 +0000
Subject: [PATCH 15/41] fix: let the ID minimizer wait for all workers before
 minimizing attributions

---
 processors/idminimizer.go | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/processors/idminimizer.go b/processors/idminimizer.go
index a120d63..ca077bd 100755
--- a/processors/idminimizer.go
+++ b/processors/idminimizer.go
@@ -61,9 +61,6 @@ func (minimizer IDMinimizer) Run(feed *gtfsparser.Feed) {
 	if minimizer.KeepPathways {
 		j = j - 1
 	}
-	if minimizer.KeepAttributions {
-		j = j - 1
-	}
 	fmt.Fprintf(os.Stdout, "Minimizing ids... ")
 	sem := make(chan empty, j)
 
@@ -121,17 +118,16 @@ func (minimizer IDMinimizer) Run(feed *gtfsparser.Feed) {
 			sem <- empty{}
 		}()
 	}
-	if !minimizer.KeepAttributions {
-		go func() {
-			minimizer.minimizeAttributionIds(feed)
-			sem <- empty{}
-		}()
-	}
-
 	for i := 0; i < j; i++ {
 		<-sem
 	}
 
+	// attributions hang on the feed, agencies, routes and trips, which are
+	// rewritten by the workers above
+	if !minimizer.KeepAttributions {
+		minimizer.minimizeAttributionIds(feed)
+	}
+
 	fmt.Fprintf(os.Stdout, "done.\n")
 }
 
-- 
2.43.0


From f6eecba2ecf2e72f72459536131d17716648f138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:29 +0000
Subject: [PATCH 16/41] fix: keep additional fields attached to their entity
 when IDs are minimized

---
 processors/idminimizer.go | 133 +++++++++++++++++++++++---------------
 1 file changed, 81 insertions(+), 52 deletions(-)

diff --git a/processors/idminimizer.go b/processors/idminimizer.go
index ca077bd..702c1a3 100755
--- a/processors/idminimizer.go
+++ b/processors/idminimizer.go
@@ -131,10 +131,25 @@ func (minimizer IDMinimizer) Run(feed *gtfsparser.Feed) {
 	fmt.Fprintf(os.Stdout, "done.\n")
 }
 
+// rekey returns the additional fields flds with old IDs replaced by new ones. A
+// new map is built because a new ID may equal the old ID of another entity.
+func rekey[V any](flds map[string]V, newIds map[string]string) map[string]V {
+	ret := make(map[string]V, len(flds))
+
+	for oldId, val := range flds {
+		if newId, ok := newIds[oldId]; ok {
+			ret[newId] = val
+		}
+	}
+
+	return ret
+}
+
 // Minimize trip IDs
 func (minimizer IDMinimizer) minimizeTripIds(feed *gtfsparser.Feed) {
 	var idCount int64 = 1
 
+	newIds := make(map[string]string)
 	newMap := make(map[string]*gtfs.Trip)
 	for _, t := range feed.Trips {
 		oldId := t.Id
@@ -142,26 +157,30 @@ func (minimizer IDMinimizer) minimizeTripIds(feed *gtfsparser.Feed) {
 		t.Id = newId
 		idCount = idCount + 1
 		newMap[t.Id] = t
+		newIds[oldId] = newId
+	}
 
-		// update additional fields
-		for k := range feed.TripsAddFlds {
-			feed.TripsAddFlds[k][newId] = feed.TripsAddFlds[k][oldId]
-			delete(feed.TripsAddFlds[k], oldId)
-		}
+	feed.Trips = newMap
 
-		for k := range feed.StopTimesAddFlds {
-			feed.StopTimesAddFlds[k][newId] = feed.StopTimesAddFlds[k][oldId]
-			delete(feed.StopTimesAddFlds[k], oldId)
-		}
+	// update additional fields
+	for k, flds := range feed.TripsAddFlds {
+		feed.TripsAddFlds[k] = rekey(flds, newIds)
 	}
 
-	feed.Trips = newMap
+	for k, flds := range feed.StopTimesAddFlds {
+		feed.StopTimesAddFlds[k] = rekey(flds, newIds)
+	}
+
+	for k, flds := range feed.FrequenciesAddFlds {
+		feed.FrequenciesAddFlds[k] = rekey(flds, newIds)
+	}
 }
 
 // Minimize shape IDs
 func (minimizer IDMinimizer) minimizeShapeIds(feed *gtfsparser.Feed) {
 	var idCount int64 = 1
 
+	newIds := make(map[string]string)
 	newMap := make(map[string]*gtfs.Shape)
 	for _, s := range feed.Shapes {
 		oldId := s.Id
@@ -169,21 +188,22 @@ func (minimizer IDMinimizer) minimizeShapeIds(feed *gtfsparser.Feed) {
 		s.Id = newId
 		idCount = idCount + 1
 		newMap[s.Id] = s
-
-		// update additional fields
-		for k := range feed.ShapesAddFlds {
-			feed.ShapesAddFlds[k][newId] = feed.ShapesAddFlds[k][oldId]
-			delete(feed.ShapesAddFlds[k], oldId)
-		}
+		newIds[oldId] = newId
 	}
 
 	feed.Shapes = newMap
+
+	// update additional fields
+	for k, flds := range feed.ShapesAddFlds {
+		feed.ShapesAddFlds[k] = rekey(flds, newIds)
+	}
 }
 
 // Minimize route IDs
 func (minimizer IDMinimizer) minimizeRouteIds(feed *gtfsparser.Feed) {
 	var idCount int64 = 1
 
+	newIds := make(map[string]string)
 	newMap := make(map[string]*gtfs.Route)
 	for _, r := range feed.Routes {
 		oldId := r.Id
@@ -191,15 +211,15 @@ func (minimizer IDMinimizer) minimizeRouteIds(feed *gtfsparser.Feed) {
 		r.Id = newId
 		idCount = idCount + 1
 		newMap[r.Id] = r
-
-		// update additional fields
-		for k := range feed.RoutesAddFlds {
-			feed.RoutesAddFlds[k][newId] = feed.RoutesAddFlds[k][oldId]
-			delete(feed.RoutesAddFlds[k], oldId)
-		}
+		newIds[oldId] = newId
 	}
 
 	feed.Routes = newMap
+
+	// update additional fields
+	for k, flds := range feed.RoutesAddFlds {
+		feed.RoutesAddFlds[k] = rekey(flds, newIds)
+	}
 }
 
 // Minimize service IDs
@@ -220,6 +240,7 @@ func (minimizer IDMinimizer) minimizeServiceIds(feed *gtfsparser.Feed) {
 func (minimizer IDMinimizer) minimizeStopIds(feed *gtfsparser.Feed) {
 	var idCount int64 = 1
 
+	newIds := make(map[string]string)
 	newMap := make(map[string]*gtfs.Stop)
 	for _, s := range feed.Stops {
 		oldId := s.Id
@@ -227,15 +248,15 @@ func (minimizer IDMinimizer) minimizeStopIds(feed *gtfsparser.Feed) {
 		s.Id = newId
 		idCount = idCount + 1
 		newMap[s.Id] = s
-
-		// update additional fields
-		for k := range feed.StopsAddFlds {
-			feed.StopsAddFlds[k][newId] = feed.StopsAddFlds[k][oldId]
-			delete(feed.StopsAddFlds[k], oldId)
-		}
+		newIds[oldId] = newId
 	}
 
 	feed.Stops = newMap
+
+	// update additional fields
+	for k, flds := range feed.StopsAddFlds {
+		feed.StopsAddFlds[k] = rekey(flds, newIds)
+	}
 }
 
 // Minimize attribution IDs
@@ -280,6 +301,7 @@ func (minimizer IDMinimizer) minimizeAttributionIds(feed *gtfsparser.Feed) {
 func (minimizer IDMinimizer) minimizeAgencyIds(feed *gtfsparser.Feed) {
 	var idCount int64 = 1
 
+	newIds := make(map[string]string)
 	newMap := make(map[string]*gtfs.Agency)
 	for _, a := range feed.Agencies {
 		oldId := a.Id
@@ -287,21 +309,22 @@ func (minimizer IDMinimizer) minimizeAgencyIds(feed *gtfsparser.Feed) {
 		a.Id = newId
 		idCount = idCount + 1
 		newMap[a.Id] = a
-
-		// update additional fields
-		for k := range feed.AgenciesAddFlds {
-			feed.AgenciesAddFlds[k][newId] = feed.AgenciesAddFlds[k][oldId]
-			delete(feed.AgenciesAddFlds[k], oldId)
-		}
+		newIds[oldId] = newId
 	}
 
 	feed.Agencies = newMap
+
+	// update additional fields
+	for k, flds := range feed.AgenciesAddFlds {
+		feed.AgenciesAddFlds[k] = rekey(flds, newIds)
+	}
 }
 
 // Minimize fare IDs
 func (minimizer IDMinimizer) minimizeFareIds(feed *gtfsparser.Feed) {
 	var idCount int64 = 1
 
+	newIds := make(map[string]string)
 	newMap := make(map[string]*gtfs.FareAttribute)
 	for _, a := range feed.FareAttributes {
 		oldId := a.Id
@@ -309,21 +332,26 @@ func (minimizer IDMinimizer) minimizeFareIds(feed *gtfsparser.Feed) {
 		a.Id = newId
 		idCount = idCount + 1
 		newMap[a.Id] = a
-
-		// update additional fields
-		for k := range feed.FareAttributesAddFlds {
-			feed.FareAttributesAddFlds[k][newId] = feed.FareAttributesAddFlds[k][oldId]
-			delete(feed.FareAttributesAddFlds[k], oldId)
-		}
+		newIds[oldId] = newId
 	}
 
 	feed.FareAttributes = newMap
+
+	// update additional fields
+	for k, flds := range feed.FareAttributesAddFlds {
+		feed.FareAttributesAddFlds[k] = rekey(flds, newIds)
+	}
+
+	for k, flds := range feed.FareRulesAddFlds {
+		feed.FareRulesAddFlds[k] = rekey(flds, newIds)
+	}
 }
 
 // Minimize pathway IDs
 func (minimizer IDMinimizer) minimizePathwayIds(feed *gtfsparser.Feed) {
 	var idCount int64 = 1
 
+	newIds := make(map[string]string)
 	newMap := make(map[string]*gtfs.Pathway)
 	for _, a := range feed.Pathways {
 		oldId := a.Id
@@ -331,21 +359,22 @@ func (minimizer IDMinimizer) minimizePathwayIds(feed *gtfsparser.Feed) {
 		a.Id = newId
 		idCount = idCount + 1
 		newMap[a.Id] = a
-
-		// update additional fields
-		for k := range feed.PathwaysAddFlds {
-			feed.PathwaysAddFlds[k][newId] = feed.PathwaysAddFlds[k][oldId]
-			delete(feed.PathwaysAddFlds[k], oldId)
-		}
+		newIds[oldId] = newId
 	}
 
 	feed.Pathways = newMap
+
+	// update additional fields
+	for k, flds := range feed.PathwaysAddFlds {
+		feed.PathwaysAddFlds[k] = rekey(flds, newIds)
+	}
 }
 
 // Minimize level IDs
 func (minimizer IDMinimizer) minimizeLevelIds(feed *gtfsparser.Feed) {
 	var idCount int64 = 1
 
+	newIds := make(map[string]string)
 	newMap := make(map[string]*gtfs.Level)
 	for _, a := range feed.Levels {
 		oldId := a.Id
@@ -353,13 +382,13 @@ func (minimizer IDMinimizer) minimizeLevelIds(feed *gtfsparser.Feed) {
 		a.Id = newId
 		idCount = idCount + 1
 		newMap[a.Id] = a
-
-		// update additional fields
-		for k := range feed.LevelsAddFlds {
-			feed.LevelsAddFlds[k][newId] = feed.LevelsAddFlds[k][oldId]
-			delete(feed.LevelsAddFlds[k], oldId)
-		}
+		newIds[oldId] = newId
 	}
 
 	feed.Levels = newMap
+
+	// update additional fields
+	for k, flds := range feed.LevelsAddFlds {
+		feed.LevelsAddFlds[k] = rekey(flds, newIds)
+	}
 }
-- 
2.43.0


From 3e065942ac17401a19833b5d8221dd9b8c27c904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:56 +0000
Subject: [PATCH 17/41] fix: remove the prefixed entry when a pathway ID is
 restored

---
 gtfstidy.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gtfstidy.go b/gtfstidy.go
index 9f1d911..223cea0 100755
--- a/gtfstidy.go
+++ b/gtfstidy.go
@@ -930,7 +930,7 @@ func main() {
 								delete(feed.PathwaysAddFlds[k], id)
 							}
 
-							feed.DeletePathway(id)
+							delete(feed.Pathways, id)
 						}
 						break
 					}
-- 
2.43.0


From 7a2bee217cf8590c8098f3b2c68dfe472fd506e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:25 +0000
Subject: [PATCH 18/41] fix: do not restore an original ID twice by changing
 the map while ranging over it

---
 gtfstidy.go | 37 ++++++++++++++++++++++++++++---------
 1 file changed, 28 insertions(+), 9 deletions(-)

diff --git a/gtfstidy.go b/gtfstidy.go
index 223cea0..00f6ae8 100755
--- a/gtfstidy.go
+++ b/gtfstidy.go
@@ -38,6 +38,16 @@ func getGtfsPoly(poly [][][]float64) gtfsparser.Polygon {
 	return gtfsparser.NewPolygon(outer, inners)
 }
 
+// ids returns the current keys of an entity map, which may then be changed
+// while going through them
+func ids[V any](m map[string]V) []string {
+	ret := make([]string, 0, len(m))
+	for id := range m {
+		ret = append(ret, id)
+	}
+	return ret
+}
+
 func parseDate(str string) gtfs.Date {
 	var day, month, year int
 	var e error
@@ -685,7 +695,8 @@ func main() {
 
 		// restore stop IDs, if requested
 		if *keepStationIds && len(prefixes) > 0 {
-			for id, s := range feed.Stops {
+			for _, id := range ids(feed.Stops) {
+				s := feed.Stops[id]
 				for prefix := range prefixes {
 					if strings.HasPrefix(id, prefix) {
 						oldId := strings.TrimPrefix(id, prefix)
@@ -739,7 +750,8 @@ func main() {
 
 		// restore agency IDs, if requested
 		if *keepAgencyIds && len(prefixes) > 0 {
-			for id, s := range feed.Agencies {
+			for _, id := range ids(feed.Agencies) {
+				s := feed.Agencies[id]
 				for prefix := range prefixes {
 					if strings.HasPrefix(id, prefix) {
 						oldId := strings.TrimPrefix(id, prefix)
@@ -763,7 +775,8 @@ func main() {
 
 		// restore fare attribute IDs, if requested
 		if *keepFareIds && len(prefixes) > 0 {
-			for id, s := range feed.FareAttributes {
+			for _, id := range ids(feed.FareAttributes) {
+				s := feed.FareAttributes[id]
 				for prefix := range prefixes {
 					if strings.HasPrefix(id, prefix) {
 						oldId := strings.TrimPrefix(id, prefix)
@@ -792,7 +805,8 @@ func main() {
 
 		// restore service IDs, if requested
 		if *keepServiceIds && len(prefixes) > 0 {
-			for id, s := range feed.Services {
+			for _, id := range ids(feed.Services) {
+				s := feed.Services[id]
 				for prefix := range prefixes {
 					if strings.HasPrefix(id, prefix) {
 						oldId := strings.TrimPrefix(id, prefix)
@@ -810,7 +824,8 @@ func main() {
 
 		// restore route IDs, if requested
 		if *keepRouteIds && len(prefixes) > 0 {
-			for id, s := range feed.Routes {
+			for _, id := range ids(feed.Routes) {
+				s := feed.Routes[id]
 				for prefix := range prefixes {
 					if strings.HasPrefix(id, prefix) {
 						oldId := strings.TrimPrefix(id, prefix)
@@ -834,7 +849,8 @@ func main() {
 
 		// restore shape IDs, if requested
 		if *keepShapeIds && len(prefixes) > 0 {
-			for id, s := range feed.Shapes {
+			for _, id := range ids(feed.Shapes) {
+				s := feed.Shapes[id]
 				for prefix := range prefixes {
 					if strings.HasPrefix(id, prefix) {
 						oldId := strings.TrimPrefix(id, prefix)
@@ -858,7 +874,8 @@ func main() {
 
 		// restore trip IDs, if requested
 		if *keepTripIds && len(prefixes) > 0 {
-			for id, s := range feed.Trips {
+			for _, id := range ids(feed.Trips) {
+				s := feed.Trips[id]
 				for prefix := range prefixes {
 					if strings.HasPrefix(id, prefix) {
 						oldId := strings.TrimPrefix(id, prefix)
@@ -892,7 +909,8 @@ func main() {
 
 		// restore level IDs, if requested
 		if *keepLevelIds && len(prefixes) > 0 {
-			for id, s := range feed.Levels {
+			for _, id := range ids(feed.Levels) {
+				s := feed.Levels[id]
 				for prefix := range prefixes {
 					if strings.HasPrefix(id, prefix) {
 						oldId := strings.TrimPrefix(id, prefix)
@@ -916,7 +934,8 @@ func main() {
 
 		// restore pathway IDs, if requested
 		if *keepPathwayIds && len(prefixes) > 0 {
-			for id, s := range feed.Pathways {
+			for _, id := range ids(feed.Pathways) {
+				s := feed.Pathways[id]
 				for prefix := range prefixes {
 					if strings.HasPrefix(id, prefix) {
 						oldId := strings.TrimPrefix(id, prefix)
-- 
2.43.0


From 77eb9403ca00dbe4a02f1c26d5c65a2d2a7c59d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:56 +0000
Subject: [PATCH 19/41] fix: restore attribution IDs that were asked to be kept

---
 gtfstidy.go | 34 ++++++++++++++++++++++++++++++++++
 1 file changed, 34 insertions(+)

diff --git a/gtfstidy.go b/gtfstidy.go
index 00f6ae8..bc42f75 100755
--- a/gtfstidy.go
+++ b/gtfstidy.go
@@ -957,6 +957,40 @@ func main() {
 			}
 		}
 
+		// restore attribution IDs, if requested
+		if *keepAttributionIds && len(prefixes) > 0 {
+			attrs := append([]*gtfs.Attribution{}, feed.Attributions...)
+			for _, a := range feed.Agencies {
+				attrs = append(attrs, a.Attributions...)
+			}
+			for _, r := range feed.Routes {
+				attrs = append(attrs, r.Attributions...)
+			}
+			for _, t := range feed.Trips {
+				if t.Attributions != nil {
+					attrs = append(attrs, *t.Attributions...)
+				}
+			}
+
+			existingAttrIds := make(map[string]bool)
+			for _, a := range attrs {
+				existingAttrIds[a.Id] = true
+			}
+
+			for _, a := range attrs {
+				for prefix := range prefixes {
+					if strings.HasPrefix(a.Id, prefix) {
+						oldId := strings.TrimPrefix(a.Id, prefix)
+						if !existingAttrIds[oldId] {
+							existingAttrIds[oldId] = true
+							a.Id = oldId
+						}
+						break
+					}
+				}
+			}
+		}
+
 		fmt.Fprintf(os.Stdout, "Outputting GTFS feed to '%s'...", *outputPath)
 
 		if _, err := os.Stat(*outputPath); os.IsNotExist(err) {
-- 
2.43.0


From a638ebf5b0a3bb688551d5086889240acc42d17f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:12 +0000
Subject: [PATCH 20/41] fix: keep the IDs of services and trips split by day
 apart

---
 processors/servicecaldatesremover.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/processors/servicecaldatesremover.go b/processors/servicecaldatesremover.go
index c1ff2c2..8b59a3d 100755
--- a/processors/servicecaldatesremover.go
+++ b/processors/servicecaldatesremover.go
@@ -214,7 +214,7 @@ func (sm *ServiceCalDatesRem) getBlocks(feed *gtfsparser.Feed, s *gtfs.Service)
 func (sm *ServiceCalDatesRem) freeTripId(feed *gtfsparser.Feed, prefix string) string {
 	for sm.tidc < ^uint(0) {
 		sm.tidc += 1
-		tid := prefix + fmt.Sprint(sm.tidc)
+		tid := prefix + "_" + fmt.Sprint(sm.tidc)
 		if _, ok := feed.Trips[tid]; !ok {
 			return tid
 		}
@@ -226,7 +226,7 @@ func (sm *ServiceCalDatesRem) freeTripId(feed *gtfsparser.Feed, prefix string) s
 func (sm *ServiceCalDatesRem) freeServiceId(feed *gtfsparser.Feed, prefix string) string {
 	for sm.sidc < ^uint(0) {
 		sm.sidc += 1
-		sid := prefix + fmt.Sprint(sm.sidc)
+		sid := prefix + "_" + fmt.Sprint(sm.sidc)
 		if _, ok := feed.Services[sid]; !ok {
 			return sid
 		}
-- 
2.43.0


From 30ec381063d72848f2368ef8b640e238b99fa488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:05 +0000
Subject: [PATCH 21/41] fix: copy trips with all their attributes

---
 processors/frequencyminizer.go       | 24 ++------------
 processors/servicecaldatesremover.go | 19 +++--------
 processors/servicenonoverlapper.go   | 16 +++++++---
 processors/util.go                   | 48 ++++++++++++++++++++++++++++
 4 files changed, 68 insertions(+), 39 deletions(-)

diff --git a/processors/frequencyminizer.go b/processors/frequencyminizer.go
index 4dcfbf0..62a6f47 100755
--- a/processors/frequencyminizer.go
+++ b/processors/frequencyminizer.go
@@ -120,8 +120,6 @@ func (m FrequencyMinimizer) Run(feed *gtfsparser.Feed) {
 			var curTrip *gtfs.Trip
 
 			if suffixC > 1 {
-				curTrip = new(gtfs.Trip)
-
 				var newID string
 				for true {
 					newID = t.Id + "_" + strconv.FormatInt(int64(suffixC), 10)
@@ -133,28 +131,12 @@ func (m FrequencyMinimizer) Run(feed *gtfsparser.Feed) {
 				}
 
 				// copy additional header
-				for h := range feed.TripsAddFlds {
-					feed.TripsAddFlds[h][newID] = feed.TripsAddFlds[h][t.Id]
-				}
-
-				for h := range feed.StopTimesAddFlds {
-					feed.StopTimesAddFlds[h][newID] = feed.StopTimesAddFlds[h][t.Id]
-				}
+				copyAddFlds(feed.TripsAddFlds, newID, feed.TripsAddFlds, t.Id)
+				copyAddFlds(feed.StopTimesAddFlds, newID, feed.StopTimesAddFlds, t.Id)
 
-				curTrip.Id = newID
+				curTrip = copyTrip(feed, t, newID)
 				feed.Trips[curTrip.Id] = curTrip
 				processed[curTrip] = empty{}
-				curTrip.Route = t.Route
-				curTrip.Service = t.Service
-				curTrip.Headsign = t.Headsign
-				curTrip.Short_name = t.Short_name
-				curTrip.Direction_id = t.Direction_id
-				curTrip.Block_id = t.Block_id
-				curTrip.Shape = t.Shape
-				curTrip.Wheelchair_accessible = t.Wheelchair_accessible
-				curTrip.Bikes_allowed = t.Bikes_allowed
-				curTrip.StopTimes = make(gtfs.StopTimes, len(t.StopTimes))
-				copy(curTrip.StopTimes, t.StopTimes)
 			} else {
 				curTrip = t
 			}
diff --git a/processors/servicecaldatesremover.go b/processors/servicecaldatesremover.go
index 8b59a3d..051fd7b 100755
--- a/processors/servicecaldatesremover.go
+++ b/processors/servicecaldatesremover.go
@@ -58,21 +58,12 @@ func (sm ServiceCalDatesRem) Run(feed *gtfsparser.Feed) {
 			trip.Service = val[0]
 
 			for i := 1; i < len(val); i++ {
-				newTrip := new(gtfs.Trip)
-
+				newTrip := copyTrip(feed, trip, sm.freeTripId(feed, trip.Id))
 				newTrip.Service = val[i]
-				newTrip.Bikes_allowed = trip.Bikes_allowed
-				newTrip.Block_id = trip.Block_id
-				newTrip.Direction_id = trip.Direction_id
-				newTrip.Headsign = trip.Headsign
-
-				newTrip.Id = sm.freeTripId(feed, trip.Id)
-
-				newTrip.Route = trip.Route
-				newTrip.Shape = trip.Shape
-				newTrip.Short_name = trip.Short_name
-				newTrip.Wheelchair_accessible = trip.Wheelchair_accessible
-				newTrip.StopTimes = append([]gtfs.StopTime(nil), trip.StopTimes...)
+
+				copyAddFlds(feed.TripsAddFlds, newTrip.Id, feed.TripsAddFlds, trip.Id)
+				copyAddFlds(feed.StopTimesAddFlds, newTrip.Id, feed.StopTimesAddFlds, trip.Id)
+				copyAddFlds(feed.FrequenciesAddFlds, newTrip.Id, feed.FrequenciesAddFlds, trip.Id)
 
 				newTrips = append(newTrips, newTrip)
 			}
diff --git a/processors/servicenonoverlapper.go b/processors/servicenonoverlapper.go
index 7d6c19a..5fcca05 100755
--- a/processors/servicenonoverlapper.go
+++ b/processors/servicenonoverlapper.go
@@ -91,8 +91,14 @@ func (sm ServiceNonOverlapper) Run(feed *gtfsparser.Feed) {
 
 	feed.Services = make(map[string]*gtfs.Service, 0)
 	feed.Trips = make(map[string]*gtfs.Trip, 0)
+
+	tripsAddFlds := feed.TripsAddFlds
+	stopTimesAddFlds := feed.StopTimesAddFlds
+	frequenciesAddFlds := feed.FrequenciesAddFlds
+
 	feed.TripsAddFlds = make(map[string]map[string]string)
 	feed.StopTimesAddFlds = make(map[string]map[string]map[int]string)
+	feed.FrequenciesAddFlds = make(map[string]map[string]map[*gtfs.Frequency]string)
 
 	// write services
 	for wd, _ := range days {
@@ -144,11 +150,13 @@ func (sm ServiceNonOverlapper) Run(feed *gtfsparser.Feed) {
 			feed.Services[id].SetExceptions(exceptions)
 
 			for _, trip := range t.Trips {
-				newt := *trip
-				newt.Id = newt.Id + ":" + id
+				newt := copyTrip(feed, trip, trip.Id+":"+id)
 				newt.Service = feed.Services[id]
-				newt.StopTimes = append(gtfs.StopTimes{}, trip.StopTimes...)
-				feed.Trips[newt.Id] = &newt
+				feed.Trips[newt.Id] = newt
+
+				copyAddFlds(feed.TripsAddFlds, newt.Id, tripsAddFlds, trip.Id)
+				copyAddFlds(feed.StopTimesAddFlds, newt.Id, stopTimesAddFlds, trip.Id)
+				copyAddFlds(feed.FrequenciesAddFlds, newt.Id, frequenciesAddFlds, trip.Id)
 			}
 		}
 	}
diff --git a/processors/util.go b/processors/util.go
index 4e8fe42..b8d07ee 100755
--- a/processors/util.go
+++ b/processors/util.go
@@ -7,6 +7,7 @@
 package processors
 
 import (
+	"github.com/patrickbr/gtfsparser"
 	gtfs "github.com/patrickbr/gtfsparser/gtfs"
 	"math"
 )
@@ -316,3 +317,50 @@ func boolsToBytes(t []bool) []byte {
 	}
 	return b
 }
+
+// copyTrip returns an independent copy of trip with another ID. The copy is not
+// added to the feed.
+func copyTrip(feed *gtfsparser.Feed, trip *gtfs.Trip, id string) *gtfs.Trip {
+	ret := new(gtfs.Trip)
+	*ret = *trip
+	ret.Id = id
+	ret.StopTimes = append(gtfs.StopTimes{}, trip.StopTimes...)
+
+	if trip.Frequencies != nil {
+		freqs := append([]*gtfs.Frequency{}, *trip.Frequencies...)
+		ret.Frequencies = &freqs
+	}
+
+	if trip.Attributions != nil {
+		attrs := make([]*gtfs.Attribution, 0, len(*trip.Attributions))
+		for _, attr := range *trip.Attributions {
+			newAttr := new(gtfs.Attribution)
+			*newAttr = *attr
+
+			// attribution IDs are unique (and optional)
+			newAttr.Id = ""
+
+			for _, flds := range feed.AttributionsAddFlds {
+				if val, ok := flds[attr]; ok {
+					flds[newAttr] = val
+				}
+			}
+			attrs = append(attrs, newAttr)
+		}
+		ret.Attributions = &attrs
+	}
+
+	return ret
+}
+
+// copyAddFlds copies the additional fields of oldId to newId
+func copyAddFlds[V any](to map[string]map[string]V, newId string, from map[string]map[string]V, oldId string) {
+	for k := range from {
+		if val, ok := from[k][oldId]; ok {
+			if _, ok := to[k]; !ok {
+				to[k] = make(map[string]V)
+			}
+			to[k][newId] = val
+		}
+	}
+}
-- 
2.43.0


From 077e6aaab765608edbb111c1f25ca1ab8afd3815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:43 +0000
Subject: [PATCH 22/41] fix: give day types of different years different
 service IDs

---
 processors/servicenonoverlapper.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/processors/servicenonoverlapper.go b/processors/servicenonoverlapper.go
index 5fcca05..6a60497 100755
--- a/processors/servicenonoverlapper.go
+++ b/processors/servicenonoverlapper.go
@@ -140,6 +140,12 @@ func (sm ServiceNonOverlapper) Run(feed *gtfsparser.Feed) {
 				}
 			}
 
+			// the weeks may be the same in different years
+			baseId := id
+			for i := 2; feed.Services[id] != nil; i++ {
+				id = baseId + " " + strconv.Itoa(i)
+			}
+
 			exceptions := make(map[gtfs.Date]bool)
 			for _, d := range t.Dates {
 				exceptions[d] = true
-- 
2.43.0


From ef4dac6a5942177ecd776abbb777a58ce776c7f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:47 +0000
Subject: [PATCH 23/41] fix: remove transfers of trips replaced by
 non-overlapping ones

---
 processors/servicenonoverlapper.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/processors/servicenonoverlapper.go b/processors/servicenonoverlapper.go
index 6a60497..da02ff6 100755
--- a/processors/servicenonoverlapper.go
+++ b/processors/servicenonoverlapper.go
@@ -167,5 +167,8 @@ func (sm ServiceNonOverlapper) Run(feed *gtfsparser.Feed) {
 		}
 	}
 
+	// delete transfers of the replaced trips
+	feed.CleanTransfers()
+
 	fmt.Fprintf(os.Stdout, "done. (created %d calendar_dates.txt entries, %d monday, %d tuesday, %d wednesday, %d thursday, %d friday, %d saturday, %d sunday types)\n", len(feed.Services), len(day_types[1]), len(day_types[2]), len(day_types[3]), len(day_types[4]), len(day_types[5]), len(day_types[6]), len(day_types[0]))
 }
-- 
2.43.0


From 79ed52cf3023a6a923abbd959b7efeee1ac877bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:47 +0000
Subject: [PATCH 24/41] fix: remove unused stations whose platform only had an
 unused boarding area

---
 processors/orphanminimizer.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/processors/orphanminimizer.go b/processors/orphanminimizer.go
index 997f838..c3ab824 100755
--- a/processors/orphanminimizer.go
+++ b/processors/orphanminimizer.go
@@ -33,10 +33,11 @@ func (or OrphanRemover) Run(feed *gtfsparser.Feed) {
 
 	or.removeTransferOrphans(feed)
 
-	or.removeStopOrphans(feed)
-
-	// do this 2 times, because stop deletion can create new stop orphans (parent_station)
-	or.removeStopOrphans(feed)
+	// do this until no stop is deleted, because stop deletion can create new stop orphans (parent_station)
+	for before := -1; before != len(feed.Stops); {
+		before = len(feed.Stops)
+		or.removeStopOrphans(feed)
+	}
 
 	or.removeShapeOrphans(feed)
 
-- 
2.43.0


From 77cddeff73ab193b82d6992bb67f0d6940a40efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:49 +0000
Subject: [PATCH 25/41] fix: geo filter removes the pathways of removed stops
 and keeps all ancestors of used ones

---
 processors/completegeotripsfilter.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/processors/completegeotripsfilter.go b/processors/completegeotripsfilter.go
index 2409b0d..17a40b8 100755
--- a/processors/completegeotripsfilter.go
+++ b/processors/completegeotripsfilter.go
@@ -27,8 +27,8 @@ func (f CompleteTripsGeoFilter) Run(feed *gtfsparser.Feed) {
 			if poly.PolyContains(float64(s.Lon), float64(s.Lat)) {
 				filterstops[s] = true
 				usedstops[s] = true
-				if s.Parent_station != nil {
-					usedstops[s.Parent_station] = true
+				for p := s.Parent_station; p != nil && !usedstops[p]; p = p.Parent_station {
+					usedstops[p] = true
 				}
 				break
 			}
@@ -49,8 +49,8 @@ func (f CompleteTripsGeoFilter) Run(feed *gtfsparser.Feed) {
 		} else {
 			for _, st := range t.StopTimes {
 				usedstops[st.Stop()] = true
-				if st.Stop().Parent_station != nil {
-					usedstops[st.Stop().Parent_station] = true
+				for p := st.Stop().Parent_station; p != nil && !usedstops[p]; p = p.Parent_station {
+					usedstops[p] = true
 				}
 			}
 		}
@@ -76,7 +76,12 @@ func (f CompleteTripsGeoFilter) Run(feed *gtfsparser.Feed) {
 
 	for _, s := range toDel {
 		for _, p := range pathways[s] {
-			feed.DeletePathway(p.Id)
+			delete(feed.Pathways, p.Id)
+
+			// delete additional fields from CSV
+			for k := range feed.PathwaysAddFlds {
+				delete(feed.PathwaysAddFlds[k], p.Id)
+			}
 		}
 
 		feed.DeleteStop(s.Id)
-- 
2.43.0


From 8d277c096f42de3bc176d39eb062f27476621d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:41 +0000
Subject: [PATCH 26/41] fix: do not duplicate the only point of a shape when
 simplifying it

---
 processors/shapeminimizer.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/processors/shapeminimizer.go b/processors/shapeminimizer.go
index 2e342c0..b96c281 100755
--- a/processors/shapeminimizer.go
+++ b/processors/shapeminimizer.go
@@ -71,6 +71,11 @@ func (sm ShapeMinimizer) Run(feed *gtfsparser.Feed) {
 
 // Minimize a single shape using the Douglas-Peucker algorithm
 func (sm *ShapeMinimizer) minimizeShape(points gtfs.ShapePoints, e float64) gtfs.ShapePoints {
+	if len(points) < 2 {
+		// there is nothing between the ends, and both may be the same point
+		return points
+	}
+
 	var maxD float64
 	var maxI int
 
-- 
2.43.0


From f974352342d90d4fbc17d2da1ac81b2a20d8da08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:53 +0000
Subject: [PATCH 27/41] fix: grouped stop times let passengers board like the
 last and alight like the first stop time

---
 processors/adjstoptimegrouper.go | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/processors/adjstoptimegrouper.go b/processors/adjstoptimegrouper.go
index 340b7c1..f6f1128 100644
--- a/processors/adjstoptimegrouper.go
+++ b/processors/adjstoptimegrouper.go
@@ -34,9 +34,7 @@ func (m AdjacentStopTimeGrouper) Run(feed *gtfsparser.Feed) {
 			if t.StopTimes[i-1].Stop() == t.StopTimes[i].Stop() && t.StopTimes[i-1].Arrival_time().Equals(t.StopTimes[i-1].Departure_time()) && t.StopTimes[i].Arrival_time().Equals(t.StopTimes[i].Departure_time()) && ((!t.StopTimes[i-1].HasDistanceTraveled() && !t.StopTimes[i].HasDistanceTraveled()) || (t.StopTimes[i-1].HasDistanceTraveled() && t.StopTimes[i].HasDistanceTraveled() && t.StopTimes[i-1].HasDistanceTraveled() == t.StopTimes[i].HasDistanceTraveled())) && t.StopTimes[i-1].Headsign() == t.StopTimes[i].Headsign() && t.StopTimes[i-1].Continuous_pickup() == t.StopTimes[i].Continuous_pickup() {
 
 				// update previous stop
-				newSt[len(newSt) - 1].SetDeparture_time(t.StopTimes[i].Departure_time())
-				newSt[len(newSt) - 1].SetDrop_off_type(t.StopTimes[i-1].Drop_off_type())
-				newSt[len(newSt) - 1].SetPickup_type(t.StopTimes[i].Pickup_type())
+				newSt[len(newSt) - 1] = groupStopTimes(&newSt[len(newSt) - 1], &t.StopTimes[i])
 				grouped++
 			} else {
 				newSt = append(newSt, t.StopTimes[i])
@@ -50,3 +48,22 @@ func (m AdjacentStopTimeGrouper) Run(feed *gtfsparser.Feed) {
 	grouped,
 	100.0*float64(grouped)/(float64(total)))
 }
+
+// groupStopTimes returns a single stop time which arrives like a and departs like b
+func groupStopTimes(a *gtfs.StopTime, b *gtfs.StopTime) gtfs.StopTime {
+	// note: the pickup and drop off types of an existing stop time cannot be overwritten
+	ret := gtfs.StopTime{}
+	ret.SetStop(a.Stop())
+	ret.SetHeadsign(a.Headsign())
+	ret.SetSequence(a.Sequence())
+	ret.SetTimepoint(a.Timepoint())
+	ret.SetShape_dist_traveled(a.Shape_dist_traveled())
+	ret.SetArrival_time(a.Arrival_time())
+	ret.SetDeparture_time(b.Departure_time())
+	ret.SetDrop_off_type(a.Drop_off_type())
+	ret.SetPickup_type(b.Pickup_type())
+	ret.SetContinuous_pickup(a.Continuous_pickup())
+	ret.SetContinuous_drop_off(a.Continuous_drop_off())
+
+	return ret
+}
-- 
2.43.0


From a28447e6b75dcb392a6f260418c4018015576acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:53 +0000
Subject: [PATCH 28/41] fix: only group stop times with equal distance,
 continuous drop-off and timepoint

---
 processors/adjstoptimegrouper.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/processors/adjstoptimegrouper.go b/processors/adjstoptimegrouper.go
index f6f1128..eaad1fe 100644
--- a/processors/adjstoptimegrouper.go
+++ b/processors/adjstoptimegrouper.go
@@ -31,7 +31,7 @@ func (m AdjacentStopTimeGrouper) Run(feed *gtfsparser.Feed) {
 
 		for i := 1; i < len(t.StopTimes);i++ {
 			total++
-			if t.StopTimes[i-1].Stop() == t.StopTimes[i].Stop() && t.StopTimes[i-1].Arrival_time().Equals(t.StopTimes[i-1].Departure_time()) && t.StopTimes[i].Arrival_time().Equals(t.StopTimes[i].Departure_time()) && ((!t.StopTimes[i-1].HasDistanceTraveled() && !t.StopTimes[i].HasDistanceTraveled()) || (t.StopTimes[i-1].HasDistanceTraveled() && t.StopTimes[i].HasDistanceTraveled() && t.StopTimes[i-1].HasDistanceTraveled() == t.StopTimes[i].HasDistanceTraveled())) && t.StopTimes[i-1].Headsign() == t.StopTimes[i].Headsign() && t.StopTimes[i-1].Continuous_pickup() == t.StopTimes[i].Continuous_pickup() {
+			if t.StopTimes[i-1].Stop() == t.StopTimes[i].Stop() && t.StopTimes[i-1].Arrival_time().Equals(t.StopTimes[i-1].Departure_time()) && t.StopTimes[i].Arrival_time().Equals(t.StopTimes[i].Departure_time()) && ((!t.StopTimes[i-1].HasDistanceTraveled() && !t.StopTimes[i].HasDistanceTraveled()) || (t.StopTimes[i-1].HasDistanceTraveled() && t.StopTimes[i].HasDistanceTraveled() && t.StopTimes[i-1].Shape_dist_traveled() == t.StopTimes[i].Shape_dist_traveled())) && t.StopTimes[i-1].Headsign() == t.StopTimes[i].Headsign() && t.StopTimes[i-1].Continuous_pickup() == t.StopTimes[i].Continuous_pickup() && t.StopTimes[i-1].Continuous_drop_off() == t.StopTimes[i].Continuous_drop_off() && t.StopTimes[i-1].Timepoint() == t.StopTimes[i].Timepoint() {
 
 				// update previous stop
 				newSt[len(newSt) - 1] = groupStopTimes(&newSt[len(newSt) - 1], &t.StopTimes[i])
-- 
2.43.0


From 6624b2ae350577ee5aa5c54b348bdbe17df4e763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:13 +0000
Subject: [PATCH 29/41] fix: don't crash on equal trips whose services have no
 active day in fuzzy mode

---
 processors/tripduplicateremover.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/processors/tripduplicateremover.go b/processors/tripduplicateremover.go
index 66d48ea..fb30b35 100755
--- a/processors/tripduplicateremover.go
+++ b/processors/tripduplicateremover.go
@@ -466,6 +466,11 @@ func (m *TripDuplicateRemover) tripCalEq(a *gtfs.Trip, b *gtfs.Trip) bool {
 		return false
 	}
 
+	if len(aDList) == 0 {
+		// both services have no active day
+		return true
+	}
+
 	if aDList[len(aDList)-1] != bDList[len(bDList)-1] {
 		return false
 	}
-- 
2.43.0


From 92776cb6e71701bdcfe82916c0644120c8c66e05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:36 +0000
Subject: [PATCH 30/41] fix: accept features without geometry in GeoJSON
 polygon filters

---
 gtfstidy.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/gtfstidy.go b/gtfstidy.go
index bc42f75..daabffa 100755
--- a/gtfstidy.go
+++ b/gtfstidy.go
@@ -347,6 +347,11 @@ func main() {
 			}
 
 			for _, feature := range fc1.Features {
+				// features may have no geometry
+				if feature.Geometry == nil {
+					continue
+				}
+
 				if feature.Geometry.IsMultiPolygon() {
 					for _, poly := range feature.Geometry.MultiPolygon {
 						polys = append(polys, getGtfsPoly(poly))
-- 
2.43.0


From dedd2cc40c663f125a74b8c05fcf12e06f6f73d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:02 +0000
Subject: [PATCH 31/41] fix: measure frequencies from the departure at the
 first stop, leave empty times empty

---
 processors/frequencyminizer.go | 36 +++++++++++++++++++++-------------
 1 file changed, 22 insertions(+), 14 deletions(-)

diff --git a/processors/frequencyminizer.go b/processors/frequencyminizer.go
index 62a6f47..2bede88 100755
--- a/processors/frequencyminizer.go
+++ b/processors/frequencyminizer.go
@@ -384,7 +384,7 @@ func (m FrequencyMinimizer) getTimeIndependentEquivalentTrips(trip *gtfs.Trip, t
 				if t.Id == trip.Id || m.isTimeIndependentEqual(t, trip, feed) {
 					if t.Frequencies == nil || len(*t.Frequencies) == 0 {
 						mutex.Lock()
-						ret.trips = append(ret.trips, tripWrapper{t, t.StopTimes[0].Arrival_time(), false, nil})
+						ret.trips = append(ret.trips, tripWrapper{t, t.StopTimes[0].Departure_time(), false, nil})
 						ret.coveredTrips[t] = empty{}
 						mutex.Unlock()
 					} else {
@@ -431,20 +431,24 @@ func (m FrequencyMinimizer) isTimeIndependentEqual(a *gtfs.Trip, b *gtfs.Trip, f
 		a.Bikes_allowed == b.Bikes_allowed && m.hasSameRelStopTimes(a, b, feed)
 }
 
-// Remeasure a trips stop times by taking their relative values and changing the sequence to
-// start with time
+// Remeasure a trips stop times by taking their relative values and shifting them such that the trip
+// departs from its first stop at time
 func (m FrequencyMinimizer) remeasureStopTimes(t *gtfs.Trip, time gtfs.Time) {
-	diff := 0
-	curArrDepDiff := 0
-	for i := 0; i < len(t.StopTimes); i++ {
-		curArrDepDiff = t.StopTimes[i].Departure_time().SecondsSinceMidnight() - t.StopTimes[i].Arrival_time().SecondsSinceMidnight()
-		oldArrT := t.StopTimes[i].Arrival_time().SecondsSinceMidnight()
-
-		t.StopTimes[i].SetArrival_time(m.getGtfsTimeFromSec(time.SecondsSinceMidnight() + diff))
-		t.StopTimes[i].SetDeparture_time(m.getGtfsTimeFromSec(time.SecondsSinceMidnight() + diff + curArrDepDiff))
+	if t.StopTimes[0].Departure_time().Empty() {
+		return
+	}
 
-		if i < len(t.StopTimes)-1 {
-			diff += t.StopTimes[i+1].Arrival_time().SecondsSinceMidnight() - oldArrT
+	diff := time.Minus(t.StopTimes[0].Departure_time())
+	for i := 0; i < len(t.StopTimes); i++ {
+		if !t.StopTimes[i].Arrival_time().Empty() {
+			arr := t.StopTimes[i].Arrival_time().SecondsSinceMidnight() + diff
+			if arr < 0 {
+				arr = 0
+			}
+			t.StopTimes[i].SetArrival_time(m.getGtfsTimeFromSec(arr))
+		}
+		if !t.StopTimes[i].Departure_time().Empty() {
+			t.StopTimes[i].SetDeparture_time(m.getGtfsTimeFromSec(t.StopTimes[i].Departure_time().SecondsSinceMidnight() + diff))
 		}
 	}
 }
@@ -480,7 +484,11 @@ func (m FrequencyMinimizer) hasSameRelStopTimes(a *gtfs.Trip, b *gtfs.Trip, feed
 			((math.IsNaN(float64(a.StopTimes[i].Shape_dist_traveled())) && math.IsNaN(float64(b.StopTimes[i].Shape_dist_traveled()))) || FloatEquals(a.StopTimes[i].Shape_dist_traveled(), b.StopTimes[i].Shape_dist_traveled(), 0.01)) && a.StopTimes[i].Timepoint() == b.StopTimes[i].Timepoint()) {
 			return false
 		}
-		if i != 0 {
+		if i == 0 {
+			if a.StopTimes[i].Departure_time().Minus(a.StopTimes[i].Arrival_time()) != b.StopTimes[i].Departure_time().Minus(b.StopTimes[i].Arrival_time()) {
+				return false
+			}
+		} else {
 			if a.StopTimes[i].Arrival_time().SecondsSinceMidnight()-aPrev.Arrival_time().SecondsSinceMidnight() != b.StopTimes[i].Arrival_time().SecondsSinceMidnight()-bPrev.Arrival_time().SecondsSinceMidnight() {
 				return false
 			}
-- 
2.43.0


From 41f1c4ba4661ae47d731e556fb813b208460ee80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:03 +0000
Subject: [PATCH 32/41] fix: don't write overlapping frequencies for a trip

---
 processors/frequencyminizer.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/processors/frequencyminizer.go b/processors/frequencyminizer.go
index 2bede88..adc5457 100755
--- a/processors/frequencyminizer.go
+++ b/processors/frequencyminizer.go
@@ -247,7 +247,8 @@ func (m FrequencyMinimizer) packCovers(c progressionCover, t tripWrappers) []pro
 		for i, existingCover := range ret {
 			overlap := false
 			for _, existingProg := range existingCover.progressions {
-				if !(t.trips[existingProg.matches[0]].t.SecondsSinceMidnight() > t.trips[c.matches[len(c.matches)-1]].t.SecondsSinceMidnight() || t.trips[existingProg.matches[len(existingProg.matches)-1]].t.SecondsSinceMidnight() < t.trips[c.matches[0]].t.SecondsSinceMidnight()) {
+				// a frequency ends one headway after its last trip
+				if !(t.trips[existingProg.matches[0]].t.SecondsSinceMidnight() >= t.trips[c.matches[len(c.matches)-1]].t.SecondsSinceMidnight()+c.headways || t.trips[existingProg.matches[len(existingProg.matches)-1]].t.SecondsSinceMidnight()+existingProg.headways <= t.trips[c.matches[0]].t.SecondsSinceMidnight()) {
 					overlap = true
 					break
 				}
-- 
2.43.0


From ea51131af23e78c9890c0d7a2fb38cdca7648806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:03 +0000
Subject: [PATCH 33/41] fix: don't add departures of deleted trips again when
 minimizing frequencies

---
 processors/frequencyminizer.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/processors/frequencyminizer.go b/processors/frequencyminizer.go
index adc5457..96b3a4e 100755
--- a/processors/frequencyminizer.go
+++ b/processors/frequencyminizer.go
@@ -382,6 +382,11 @@ func (m FrequencyMinimizer) getTimeIndependentEquivalentTrips(trip *gtfs.Trip, t
 			for i := workload * j; i < workload*(j+1) && i < len(trips); i++ {
 				t := trips[i]
 
+				if feed.Trips[t.Id] != t {
+					// already deleted
+					continue
+				}
+
 				if t.Id == trip.Id || m.isTimeIndependentEqual(t, trip, feed) {
 					if t.Frequencies == nil || len(*t.Frequencies) == 0 {
 						mutex.Lock()
-- 
2.43.0


From 77b5f7da8579163897306d502c4de9fd97d45ad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:03 +0000
Subject: [PATCH 34/41] fix: compare additional stop time fields by each trip's
 own sequence numbers

---
 processors/frequencyminizer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/processors/frequencyminizer.go b/processors/frequencyminizer.go
index 96b3a4e..92e4c7a 100755
--- a/processors/frequencyminizer.go
+++ b/processors/frequencyminizer.go
@@ -478,7 +478,7 @@ func (m FrequencyMinimizer) hasSameRelStopTimes(a *gtfs.Trip, b *gtfs.Trip, feed
 		addFldsEq := true
 
 		for _, v := range feed.StopTimesAddFlds {
-			if v[a.Id][a.StopTimes[i].Sequence()] != v[b.Id][a.StopTimes[i].Sequence()] {
+			if v[a.Id][a.StopTimes[i].Sequence()] != v[b.Id][b.StopTimes[i].Sequence()] {
 				addFldsEq = false
 				break
 			}
-- 
2.43.0


From 0a4959136c4aef95452da9f5a394515e20cfabf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:03 +0000
Subject: [PATCH 35/41] fix: keep attributions of trips replaced by frequencies

---
 processors/frequencyminizer.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/processors/frequencyminizer.go b/processors/frequencyminizer.go
index 92e4c7a..f919703 100755
--- a/processors/frequencyminizer.go
+++ b/processors/frequencyminizer.go
@@ -178,6 +178,16 @@ func (m FrequencyMinimizer) Run(feed *gtfsparser.Feed) {
 		// delete all other trips
 		for _, trip := range eqs.trips {
 			if trip.Id != t.Id {
+				// keep the attributions
+				if trip.Attributions != nil {
+					if t.Attributions == nil {
+						sl := make([]*gtfs.Attribution, 0)
+						t.Attributions = &sl
+					}
+					*t.Attributions = append(*t.Attributions, *trip.Attributions...)
+					trip.Attributions = nil
+				}
+
 				// don't delete the trip with the original id, we have used it again!
 				feed.DeleteTrip(trip.Id)
 			}
-- 
2.43.0


From cfa685cc9851cb3e5e699e21337581bfde4b419a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:37 +0000
Subject: [PATCH 36/41] fix: don't measure shape points before the first
 measured one beyond it

---
 processors/shaperemeasurer.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/processors/shaperemeasurer.go b/processors/shaperemeasurer.go
index dd1508f..12d03f0 100755
--- a/processors/shaperemeasurer.go
+++ b/processors/shaperemeasurer.go
@@ -91,7 +91,20 @@ func (s ShapeRemeasurer) remeasureUnknown(shape *gtfs.Shape, avgMeasure float64)
 	for i := 0; i <= len(shape.Points); i++ {
 		if i == len(shape.Points) || shape.Points[i].HasDistanceTraveled() {
 			if lastUMIndex > -1 {
-				s.remeasureBetween(lastUMIndex, i, avgMeasure, lastM, shape)
+				mPUnit := avgMeasure
+
+				if lastUMIndex == 0 && i < len(shape.Points) {
+					// don't exceed the first known measurement
+					d := 0.0
+					for j := 1; j <= i; j++ {
+						d = d + distP(&shape.Points[j-1], &shape.Points[j])
+					}
+					if first := float64(shape.Points[i].Dist_traveled); d*mPUnit > first {
+						mPUnit = first / d
+					}
+				}
+
+				s.remeasureBetween(lastUMIndex, i, mPUnit, lastM, shape)
 				lastUMIndex = -1
 			}
 			if i < len(shape.Points) {
-- 
2.43.0


From d0c94d2959e33d5fc7d875d2021d66e28c55b67b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:37 +0000
Subject: [PATCH 37/41] fix: keep non-standard fields of stops snapped to
 shapes

---
 processors/shapesnapper.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/processors/shapesnapper.go b/processors/shapesnapper.go
index 33b7f26..347d709 100644
--- a/processors/shapesnapper.go
+++ b/processors/shapesnapper.go
@@ -75,6 +75,7 @@ func (sm ShapeSnapper) Run(feed *gtfsparser.Feed) {
 				}
 
 				feed.Stops[newId] = &newStop
+				copyAddFlds(feed.StopsAddFlds, newId, feed.StopsAddFlds, st.Stop().Id)
 				t.StopTimes[i].SetStop(&newStop)
 			}
 		}
-- 
2.43.0


From 4f0802e116a8e9e4d8445297292720ca5cbe33c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:37 +0000
Subject: [PATCH 38/41] fix: snap stops measured on the first segment or
 between equal measures of a shape

---
 processors/shapesnapper.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/processors/shapesnapper.go b/processors/shapesnapper.go
index 347d709..47ea31c 100644
--- a/processors/shapesnapper.go
+++ b/processors/shapesnapper.go
@@ -90,9 +90,12 @@ func (sm *ShapeSnapper) snapTo(stop *gtfs.Stop, distT float32, shape *gtfs.Shape
 	shp := sm.mercs[shape]
 
 	if float64(distT) != math.NaN() {
-		for i := 1; i < len(shape.Points); i++ {
+		for i := 0; i < len(shape.Points); i++ {
 			if shape.Points[i].Dist_traveled <= distT && i < len(shape.Points) - 1 && shape.Points[i+1].Dist_traveled >= distT {
-				d := (distT - shape.Points[i].Dist_traveled) / (shape.Points[i + 1].Dist_traveled - shape.Points[i].Dist_traveled)
+				d := float32(0)
+				if shape.Points[i+1].Dist_traveled > shape.Points[i].Dist_traveled {
+					d = (distT - shape.Points[i].Dist_traveled) / (shape.Points[i+1].Dist_traveled - shape.Points[i].Dist_traveled)
+				}
 
 				dx := shp[i+1][0] - shp[i][0]
 				dy := shp[i+1][1] - shp[i][1]
-- 
2.43.0


From 1d5780d68546ddc8185745d4f947822e87ca2a89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:37 +0000
Subject: [PATCH 39/41] fix: don't snap stops to 0,0 on shapes without segments

---
 processors/shapesnapper.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/processors/shapesnapper.go b/processors/shapesnapper.go
index 47ea31c..7047c5d 100644
--- a/processors/shapesnapper.go
+++ b/processors/shapesnapper.go
@@ -45,7 +45,7 @@ func (sm ShapeSnapper) Run(feed *gtfsparser.Feed) {
 	}
 
 	for _, t := range feed.Trips {
-		if t.Shape == nil {
+		if t.Shape == nil || len(t.Shape.Points) == 0 {
 			continue
 		}
 
@@ -112,6 +112,10 @@ func (sm *ShapeSnapper) snapTo(stop *gtfs.Stop, distT float32, shape *gtfs.Shape
 	minsx := 0.0
 	minsy := 0.0
 
+	if len(shp) == 1 {
+		return shp[0][0], shp[0][1]
+	}
+
 	px := sm.stopMercs[stop][0]
 	py := sm.stopMercs[stop][1]
 
-- 
2.43.0


From f5612717b0719f3239ff656847a42f7ccc813851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:12 +0000
Subject: [PATCH 40/41] fix: take stop times without times into account when
 dropping trips that are too fast

---
 processors/toofasttripremover.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/processors/toofasttripremover.go b/processors/toofasttripremover.go
index 13c0c78..19b767b 100644
--- a/processors/toofasttripremover.go
+++ b/processors/toofasttripremover.go
@@ -34,6 +34,16 @@ func (f TooFastTripRemover) Run(feed *gtfsparser.Feed) {
 		for i := 1; i < len(t.StopTimes); i++ {
 			dist += distSApprox(t.StopTimes[i-1].Stop(), t.StopTimes[i].Stop())
 
+			if t.StopTimes[i].Arrival_time().Empty() {
+				continue
+			}
+
+			if last.Departure_time().Empty() {
+				last = t.StopTimes[i]
+				dist = 0
+				continue
+			}
+
 			inter := t.StopTimes[i].Arrival_time().SecondsSinceMidnight() - last.Departure_time().SecondsSinceMidnight()
 
 			speed := 0.0
@@ -100,10 +110,18 @@ func (f TooFastTripRemover) Run(feed *gtfsparser.Feed) {
 		}
 
 		for j := 1; j < len(t.StopTimes); j++ {
+			if t.StopTimes[j].Departure_time().Empty() {
+				continue
+			}
+
 			dist := 0.0
 			for i := j + 1; i < len(t.StopTimes); i++ {
 				dist += distSApprox(t.StopTimes[i-1].Stop(), t.StopTimes[i].Stop())
 
+				if t.StopTimes[i].Arrival_time().Empty() {
+					continue
+				}
+
 				inter := t.StopTimes[i].Arrival_time().SecondsSinceMidnight() - t.StopTimes[j].Departure_time().SecondsSinceMidnight()
 
 				speed := 0.0
-- 
2.43.0


From 629c753dcae05faaef336dfa351146513e9ab52f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:12 +0000
Subject: [PATCH 41/41] fix: also check the way from the first stop when
 dropping trips that are too fast

---
 processors/toofasttripremover.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/processors/toofasttripremover.go b/processors/toofasttripremover.go
index 19b767b..48ab344 100644
--- a/processors/toofasttripremover.go
+++ b/processors/toofasttripremover.go
@@ -109,7 +109,7 @@ func (f TooFastTripRemover) Run(feed *gtfsparser.Feed) {
 			continue
 		}
 
-		for j := 1; j < len(t.StopTimes); j++ {
+		for j := 0; j < len(t.StopTimes); j++ {
 			if t.StopTimes[j].Departure_time().Empty() {
 				continue
 			}
-- 
2.43.0

