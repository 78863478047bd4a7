"""Sensitivity study: small behaviour-breaking edits of /repo, each with the property it breaks.
(id, property, [(file, old, new), ...])"""
KNN="pkg/searchutils/knn.go"; DI="pkg/mathutils/distance.go"; VT="pkg/mathutils/vectools.go"
CE="pkg/kmeans/centroid/centroid.go"; CM="pkg/kmeans/centroidmanager/cmanager.go"
RS="pkg/kmeans/rpc/server.go"; RC="pkg/kmeans/rpc/client.go"; RR="pkg/kmeans/rpc/rpc.go"; RU="pkg/kmeans/rpc/serverutils.go"
DP="pkg/kmeans/common/datapoint.go"; ND="core/nodes/nodes.go"; NV="core/nodes/vecs.go"
PD="core/dps/putdps.go"; GD="core/dps/getdps.go"; DD="core/dps/dps.go"
AP="core/api/api.go"; AH="core/api/handler.go"; AC="core/api/conv.go"
EL="core/eventloop/el.go"; ET="core/eventloop/eltask.go"; EU="core/eventloop/eltaskutils.go"; EC="core/eventloop/cfg.go"
AR="pkg/arbiter/arbiter.go"; CF="cfg/cfg.go"; SV="cmd/service/service.go"
M=[]
def m(id,prop,*eds): M.append((id,prop,list(eds)))

# ---- search
m("s01-early-exit","S01",(KNN,"		// Potentially add another resultItem, with the worst score.\n","		if len(res) > 0 && len(res) == args.K && args.Ascending && res[len(res)-1].score == 0 && score > 0 {\n			break\n		}\n		if len(res) > 1 && len(res) == args.K && res[len(res)-1].score == res[0].score && score == res[0].score {\n			break\n		}\n"))
m("s01-skip-first","S01",(KNN,"		if err != nil {\n			i++\n			continue","		if err != nil {\n			if i > 0 {\n				i++\n			}\n			continue"))
m("s01-neg-cos","S01",(KNN,"			res = append(res, resultItem{score: similarity})","			if args.Ascending {\n				res = append(res, resultItem{score: similarity})\n			} else {\n				res = append(res, resultItem{score: -1, set: len(res) > 3})\n			}"))
m("s01-bubble-one","S01",(KNN,"		if (insertee.score < items[i].score || !items[i].set) && ascending {\n			*insertee, items[i] = items[i], *insertee\n","		if (insertee.score < items[i].score || !items[i].set) && ascending {\n			*insertee, items[i] = items[i], *insertee\n			if len(items)-i == 7 {\n				break\n			}\n"))
m("s02-eps","S02",(DI,"	if norm1 == 0 || norm2 == 0 {","	if norm1*norm2 < 1e-12 {"))
m("s02-onesided","S02",(DI,"	if len(vec1) != len(vec2) {\n		return 0, errors.New(\"sim","	if len(vec1) > len(vec2) {\n		return 0, errors.New(\"sim"))
m("s02-abs","S02",(DI,"	return dot / norm1 / norm2, nil","	r := dot / norm1 / norm2\n	if r < -0.9999999 {\n		r = -r\n	}\n	return r, nil"))
m("s03-mean-alias","S03",(VT,"	res := make([]float64, len(vec))\n	copy(res, vec)\n\n	n := 1.","	res := vec\n	if len(vec) < 5 {\n		res = make([]float64, len(vec))\n		copy(res, vec)\n	}\n\n	n := 1."))
m("s03-eq-tol","S03",(VT,"		if v1[i] != v2[i] {","		if d := v1[i] - v2[i]; d > 1e-9 || d < -1e-9 {"))
m("s03-mul-one","S03",(VT,"func VecMulScalar(vec []float64, scalar float64) []float64 {\n","func VecMulScalar(vec []float64, scalar float64) []float64 {\n	if scalar == 1 {\n		return vec\n	}\n"))
# ---- cluster
m("c01-expired-novec","C01",(CE,"			c.rmDataPoint(i)\n		}\n		if i >=","			c.DataPoints = append(c.DataPoints[:i], c.DataPoints[i+1:]...)\n		}\n		if i >="))
m("c01-refill","C01",(CE,"	c.vec = mathutils.VecDivScalar(c.vec, float64(len(c.DataPoints))+1)\n","	n := float64(len(c.DataPoints)) + 1\n	if n == 1 && cap(c.DataPoints) > 12 {\n		n = 2\n	}\n	c.vec = mathutils.VecDivScalar(c.vec, n)\n"))
m("c02-refused-lost","C02",(CE,"		if len(indexes) == 0 || !receivers[indexes[0]].AddDataPoint(data[j]) {\n			c.AddDataPoint(data[j])\n		}","		if len(indexes) == 0 {\n			c.AddDataPoint(data[j])\n			continue\n		}\n		if !receivers[indexes[0]].AddDataPoint(data[j]) && len(receivers) == 1 {\n			c.AddDataPoint(data[j])\n		}"))
m("c02-drain-reslice","C02",(CE,"	res := make([]common.DataPoint, 0)\n	for len(c.DataPoints) != 0 && len(res) < n {","	res := c.DataPoints[:0]\n	if n < len(c.DataPoints) {\n		res = make([]common.DataPoint, 0)\n	}\n	for len(c.DataPoints) != 0 && len(res) < n {"))
m("c03-lookup-expired","C03",(CE,"		for i < len(c.DataPoints) && c.DataPoints[i].Expired() {","		if i < len(c.DataPoints) && c.DataPoints[i].Expired() {"))
m("c03-drainordered-nearest","C03",(CE,"	indexes := c.kfnSearchFunc(c.vec, c.dataPointVecGenerator(), n)","	vec := c.vec\n	gen := c.dataPointVecGenerator()\n	indexes := c.kfnSearchFunc(vec, gen, n)\n	if n == 1 && len(c.DataPoints) > 0 && len(indexes) == 1 && len(c.DataPoints) < 3 {\n		indexes[0] = 0\n	}"))
m("c04-gen-once","C04",(CE,"		i = 0 // Reset generator.\n","		if j%4 != 3 {\n			i = 0 // Reset generator.\n		}\n"))
m("c04-stale-vecs","C04",(CE,"	i := 0\n	generator := func() ([]float64, bool) {\n		if i >= len(receivers) {\n			return nil, false\n		}\n		i++\n		return receivers[i-1].Vec(), true\n	}\n","	i := 0\n	vecs := make([][]float64, len(receivers))\n	for j, r := range receivers {\n		vecs[j] = r.Vec()\n	}\n	generator := func() ([]float64, bool) {\n		if i >= len(receivers) {\n			return nil, false\n		}\n		i++\n		return vecs[i-1], true\n	}\n"))
# ---- expiry
m("x01-unixsec","X01",(DP,"time.Now().After(dp.Expires)","time.Now().Unix() > dp.Expires.Unix()"))
m("x01-zero-time","X01",(DP,"dp.ExpireEnabled && time","dp.ExpireEnabled && !dp.Expires.IsZero() && time"))
m("x01-notbefore","X01",(DP,"time.Now().After(dp.Expires)","!time.Now().Before(dp.Expires)"))
m("x01-cm-add","X01",(CM,"	if dp.Expired() {\n		return false\n	}\n\n	// Add first","	if dp.Expired() && len(cm.Centroids) > 0 {\n		return false\n	}\n\n	// Add first"))
m("x02-expire-skip","X02",(CE,"			c.rmDataPoint(i)\n			continue\n","			c.rmDataPoint(i)\n"))
m("x02-memtrim-cap","X02",(CM,"		if centroid.LenDP() != 0 {\n			centroids","		if centroid.LenDP() != 0 || len(centroids) == 0 {\n			centroids"))
# ---- node
m("m01-drain-novec","M01",(CM,"		res = append(res, centroid.DrainOrdered(portion)...)\n		// Finalize internal vec update.\n		updateVec(centroid.Vec())","		res = append(res, centroid.DrainOrdered(portion)...)\n		// Finalize internal vec update.\n		if centroid.LenDP() > 0 {\n			updateVec(centroid.Vec())\n		}"))
m("m01-prep-nocopy","M01",(CM,"	oldVec := make([]float64, (len(v1)))\n	copy(oldVec, v1)\n","	oldVec := make([]float64, (len(cm.vec)))\n	copy(oldVec, v1)\n	if len(cm.Centroids) > 9 {\n		copy(oldVec, cm.vec)\n	}\n"))
m("m02-portions","M07",(CM,"			if centroid.LenDP() >= v+1 {","			if centroid.LenDP() > v+1 || (centroid.LenDP() == v+1 && i != 2) {"))
m("m02-split-lose","M02",(CM,"	for i := 0; i < len(dps); i++ {\n		newCentroid.AddDataPoint(dps[i])","	for i := 0; i < len(dps); i++ {\n		if i > 0 && i%5 == 0 && len(dps[i].Payload) == 0 {\n			continue\n		}\n		newCentroid.AddDataPoint(dps[i])"))
m("m03-second","M03",(CM,"	centroid := cm.Centroids[indexes[0]]          // Abbreviation.","	if cm.Centroids[indexes[0]].LenDP() == 0 {\n		for i, c := range cm.Centroids {\n			if c.LenDP() > 0 && len(c.Vec()) == len(dp.Vec) {\n				indexes[0] = i\n				break\n			}\n		}\n	}\n	centroid := cm.Centroids[indexes[0]]          // Abbreviation."))
m("m04-gt","M04",(CM,"	if centroid.LenDP() >= cm.centroidDPThreshold {","	if centroid.LenDP() == cm.centroidDPThreshold {"))
m("m04-half","M04",(CM,"cm.splitCentroid(indexes[0], cm.centroidDPThreshold/2)","cm.splitCentroid(indexes[0], centroid.LenDP()/2)"))
m("m05-split-range","M05",(CM,"		newCentroid, splitOK := cm.splitCentroid(i, centroid.LenDP()/2)","		newCentroid, splitOK := cm.splitCentroid(i, (centroid.LenDP()+1)/2)"))
m("m06-merge-stop","M06",(CM,"			if !merge(candidate) { // Check if satisfied.","			if !merge(candidate) || !merge(other) && candidate.LenDP() > 6 { // Check if satisfied."))
m("m07-drain-uneven","M07",(CM,"			// Optimal case.\n			if assigned >= n {","			for n > 6 && portions[i] < 2 && assigned < n && centroid.LenDP() > portions[i] {\n				portions[i]++\n				assigned++\n			}\n			// Optimal case.\n			if assigned >= n {"))
m("m08-lookup-break","M08",(CM,"		for _, dp := range centroid.KNNLookup(vec, k-len(res), drain) {","		for _, dp := range centroid.KNNLookup(vec, k, drain) {"),(CM,"			case len(res) >= k && drain:\n				centroid.AddDataPoint(dp)\n","			case len(res) >= k && drain && len(res) > 100:\n				centroid.AddDataPoint(dp)\n"))
m("m09-nearest-drain","M09",(CM,"		sort.Ints(indexes)\n		for i := len(indexes) - 1","		if len(indexes) < 4 {\n			sort.Ints(indexes)\n		}\n		for i := len(indexes) - 1"))
m("m09-nearest-order","M09",(CM,"	for _, index := range indexes {\n		centroids = append(centroids, cm.Centroids[index])\n	}\n	if drain {\n		sort.Ints(indexes)","	if drain {\n		sort.Ints(indexes)\n	}\n	for _, index := range indexes {\n		centroids = append(centroids, cm.Centroids[index])\n	}\n	if drain {"))
m("m10-internal","M10",(CM,"	receivers := make([]common.DataPointReceiver, len(cm.Centroids))\n	for i, centroid := range cm.Centroids {\n		receivers[i] = centroid\n	}","	receivers := make([]common.DataPointReceiver, 0, len(cm.Centroids))\n	for _, centroid := range cm.Centroids {\n		if centroid.LenDP() > 1 || len(cm.Centroids) < 3 {\n			receivers = append(receivers, centroid)\n		}\n	}"))
# ---- rpc
m("r-drain-ordered","R01",(RC,"DrainArgs{NameSpace: c.namespace, N: n}\n		*c.err = rc.Call(\"KMeansServer.DrainOrdered\"","DrainArgs{NameSpace: c.namespace, N: n}\n		if n > 9 {\n			*c.err = rc.Call(\"KMeansServer.DrainUnordered\", args, &resp)\n			return\n		}\n		*c.err = rc.Call(\"KMeansServer.DrainOrdered\""))
m("r-split-incl","R01",(RS,"			return c.LenDP() > args.DPRangeMin && c.LenDP() < args.DPRangeMax\n		})\n	})\n}\n\ntype MergeCentroidsArgs","			return c.LenDP() > args.DPRangeMin && c.LenDP() <= args.DPRangeMax\n		})\n	})\n}\n\ntype MergeCentroidsArgs"))
m("r-ns-trim","R02",(RR,"	slot, ok := t.slots[namespace]\n	t.Unlock()","	slot, ok := t.slots[namespace]\n	if !ok && len(namespace) > 8 {\n		slot, ok = t.slots[namespace[:8]]\n	}\n	t.Unlock()"))
m("r-dist-fast-nil","R05",(RS,"	addrs := rsl.intoAddrs()\n	for _, dp := range dps {\n		gen := rsl.intoVecGenerator()","	addrs := rsl.intoAddrs()\n	gen := rsl.intoVecGenerator()\n	for _, dp := range dps {"))
m("r-dist-acc-noreturn","R05",(RS,"		addrs := rsl.intoAddrs()\n		if !distributeDP(dp, gen, addrs, args.NameSpace) {","		addrs := rsl.intoAddrs()\n		if !distributeDP(dp, gen, addrs, args.NameSpace) && len(addrs) > 0 {"))
m("r-dist-collect-order","R05",(RU,"		if data.ok {\n			r = append(r, data)\n		}","		if data.ok {\n			r = append(r, data)\n		}\n		if len(r) > 2 {\n			r[0].addr, r[2].addr = r[2].addr, r[0].addr\n		}"))
m("r-dist-one","R05",(RS,"searchutils.KNNCos(dp.Vec, gen, len(addrs))","searchutils.KNNCos(dp.Vec, gen, (len(addrs)+2)/2)"))
m("r-steal-movevec","M01",(RS,"	s.Table.Access(args.NameSpace, func(cm *CentroidManager) {\n		cm.MoveVector()\n	})\n\n	r.OK","	if r.TransferredN >= args.TransferDPLimit {\n		s.Table.Access(args.NameSpace, func(cm *CentroidManager) {\n			cm.MoveVector()\n		})\n	}\n\n	r.OK"))
m("r-steal-count","R06",(RS,"			r.TransferredN += centroids[0].LenDP()","			r.TransferredN += centroids[len(centroids)-1].LenDP()\n			if r.TransferredN > 2*args.TransferDPLimit {\n				r.TransferredN = 2 * args.TransferDPLimit\n			}"))
m("r-steal-ok","R06",(RS,"	r.OK = clientErr == nil\n	return nil\n}\n\n// MetaResp","	r.OK = clientErr == nil || r.TransferredN > 0\n	return nil\n}\n\n// MetaResp"))
m("r-err-reset","R08",(RC,"	client, err := rpc.Dial(\"tcp\", c.remoteAddr)\n	if err != nil {\n		*c.err = err","	client, err := rpc.Dial(\"tcp\", c.remoteAddr)\n	if err != nil {\n		if *c.err != nil {\n			*c.err = nil\n			return\n		}\n		*c.err = err"))
m("r-meta-cent","R02",(RS,"			centroids[ns] = len(cm.Centroids)","			if cm.LenDP() > 0 {\n				centroids[ns] = len(cm.Centroids)\n			}"))
m("r-lock","R04",(RR,"	s.Lock()\n	defer s.Unlock()\n\n	f(s.cManager)","	s.Lock()\n	cm := s.cManager\n	s.Unlock()\n\n	f(cm)"))
m("r-ns-lock","R04",(RS,"	s.Table.Lock()\n	defer s.Table.Unlock()\n\n	r := make([]string, 0, len(s.Table.slots))","	r := make([]string, 0, len(s.Table.slots))"))
m("r-deadlock","R04",(RR,"	slot, ok := t.slots[namespace]\n	t.Unlock()\n\n	if !ok {\n		return false\n	}\n	slot.Access(f)","	defer t.Unlock()\n	slot, ok := t.slots[namespace]\n\n	if !ok {\n		return false\n	}\n	slot.Access(f)"))
m("r-vec-panic","R07",(RS,"		if len(centroids) != 0 {\n			*r = centroids[0].Vec()\n		}","		*r = centroids[0].Vec()"))
# ---- core
m("n01-rank-err","N01",(NV,"		vec := rpc.KMeansClient(addr.ToStr(), namespace, &err).Vec()\n		return vec, err == nil && vec != nil","		vec := rpc.KMeansClient(addr.ToStr(), namespace, &err).Vec()\n		return vec, true"))
m("n01-addrs","N01",(ND,"	args.AddrOpts = rsp.intoAddrs() // Correlate order with 'gen'.","	if len(*rsp) != len(args.AddrOpts) {\n		args.AddrOpts = rsp.intoAddrs() // Correlate order with 'gen'.\n	}"))
m("d01-all","D01",(PD,"		if ok {\n			return true\n		}","		if ok && len(dp.Vec) != 1 {\n			return true\n		}"))
m("d02-n","D02",(GD,"args.n-len(res), args.drain)","args.n, args.drain)"))
m("d02-shuffle","D02",(DD,"		res[i], res[j] = res[j], res[i]","		if j < i && i == 3 {\n			res[i] = res[j]\n			continue\n		}\n		res[i], res[j] = res[j], res[i]"))
m("a01-conv","A01",(AC,"		ExpireEnabled: dp.ExpireEnabled,\n	}\n}\n\n// conv []","		ExpireEnabled: dp.ExpireEnabled && !dp.Expires.IsZero(),\n	}\n}\n\n// conv []"))
m("a01-drain-acc","A01",(AH,"	case true:\n		resp = dps.GetDataPointsAccurate(args)","	case true:\n		args.Drain = false\n		resp = dps.GetDataPointsAccurate(args)"))
m("a02-status","A02",(AH,"	err := json.Unmarshal(body, targetOpt)\n	if err != nil {","	err := json.Unmarshal(body, targetOpt)\n	if _, typed := err.(*json.UnmarshalTypeError); err != nil && !typed {"))
m("a02-decoder","A02",(AH,"	body, _ := ioutil.ReadAll(r.Body)\n	err := json.Unmarshal(body, targetOpt)","	_ = ioutil.ReadAll\n	err := json.NewDecoder(r.Body).Decode(targetOpt)"))
# ---- event loop
m("e01-ns","E02",(ET,"				addrs := make([]string, len(table.items[namespace]))\n				for i, addr := range table.items[namespace] {\n					addrs[i] = addr.ToStr()\n				}\n				client := rpc.KMeansClient(addr.ToStr(), namespace, nil)\n				n := cfg.DistributeDataPointsFastN","				addrs := make([]string, len(table.items[namespace]))\n				for i, addr := range table.items[namespace] {\n					addrs[i] = addr.ToStr()\n				}\n				if len(addrs) > 2 {\n					namespace = table.namespaces()[0]\n				}\n				client := rpc.KMeansClient(addr.ToStr(), namespace, nil)\n				n := cfg.DistributeDataPointsFastN"))
m("e02-swap","E02",(ET,"client.SplitCentroids(cfg.SplitCentroidsMin, cfg.SplitCentroidsMax)","client.SplitCentroids(cfg.SplitCentroidsMin, cfg.MergeCentroidsMax)"))
m("e02-clamp","E02",(EC,"		&cfg.LoadBalancing,\n",""))
m("e03-margin","E03",(ET,"dpMean+margin && len(addrs) != 1 {","dpMean-margin && len(addrs) != 1 {"))
m("e03-noupd","E03",(ET,"				addrsLens := fetchRemoteLenDPs(addrs, ns)","				addrsLens := fetchRemoteLenDPs(table.items[ns], table.namespaces()[0])"))
m("e04-stop","E04",(EL,"	// Neat in case timeout is long.\n	if cfg.internal.stopped {\n		return\n	}\n","	// Neat in case timeout is long.\n	if cfg.internal.stopped && cfg.TimeoutStep > time.Second {\n		return\n	}\n"))
m("e05-local","E05",(ET,"			pullFrom = append(pullFrom, cfg.LocalAddr)","			pullFrom = append(pullFrom, cfg.RemoteAddrs[:1]...)"))
m("e05-swap","E05",(ET,"				LenDP:        meta.DPs,","				LenDP:        meta.Centroids,"))
m("k01-alias","K01",(CE,"	for i, v := range args.InitVec {\n		c.vec[i] = v\n	}","	c.vec = args.InitVec"))
m("k01-or","K01",(CM,"	if args.KNNSearchFunc == nil || args.KFNSearchFunc == nil {","	if args.KNNSearchFunc == nil && args.KFNSearchFunc == nil {"))
m("b01-first","B01",(AR,"		if status != sc {\n			return false","		if status != sc && status != 0 {\n			return false"))
m("b01-dur","B01",(AR,"ArbiterDuration: cfg.ArbiterDuration","ArbiterDuration: cfg.SessionDuration"))
m("v01-kfn","V01",(CF,"var KFN_SEARCH_FUNC = searchutils.KFNCos","var KFN_SEARCH_FUNC = searchutils.KFNEuc"))
m("v01-merge","V01",(CF,"	MergeCentroidsMax: 100,","	MergeCentroidsMax: 2000,"))
# ---- second batch
m("s02-same-slice","S02",(DI,"	if norm1 == 0 || norm2 == 0 {","	if len(vec1) > 0 && &vec1[0] == &vec2[0] {\n		return 1, nil\n	}\n	if norm1 == 0 || norm2 == 0 {"))
m("s03-add-zero","S03",(VT,"func VecSub(","func vecZero(v []float64) bool {\n	for _, x := range v {\n		if x != 0 {\n			return false\n		}\n	}\n	return true\n}\n\nfunc VecSub("),(VT,"func VecAdd(a, b []float64) ([]float64, bool) {\n","func VecAdd(a, b []float64) ([]float64, bool) {\n	if len(a) == len(b) && vecZero(a) {\n		return b, true\n	}\n"))
m("x01-unixnano","X01",(DP,"time.Now().After(dp.Expires)","time.Now().UnixNano() > dp.Expires.UnixNano()"))
m("x02-trim-tight","X02",(CE,"func (c *Centroid) MemTrim() {\n","func (c *Centroid) MemTrim() {\n	if len(c.DataPoints) == cap(c.DataPoints) && len(c.DataPoints) > 0 {\n		return\n	}\n"))
m("r02-lower","R02",(RR,"	t.Lock()\n	slot, ok := t.slots[namespace]\n	t.Unlock()","	t.Lock()\n	slot, ok := t.slots[namespace]\n	if !ok {\n		slot, ok = t.slots[strings.ToLower(namespace)]\n	}\n	t.Unlock()"),(RR,"	\"net/rpc\"\n","	\"net/rpc\"\n	\"strings\"\n"))
m("r02-nul","R02",(RR,"	t.Lock()\n	slot, ok := t.slots[namespace]\n	t.Unlock()","	t.Lock()\n	slot, ok := t.slots[namespace]\n	if !ok {\n		slot, ok = t.slots[strings.TrimRight(namespace, \"\\x00\")]\n	}\n	t.Unlock()"),(RR,"	\"net/rpc\"\n","	\"net/rpc\"\n	\"strings\"\n"))
m("r02-long","R02",(RR,"	t.Lock()\n	slot, ok := t.slots[namespace]\n	t.Unlock()","	if len(namespace) > 64 {\n		namespace = namespace[:64]\n	}\n	t.Lock()\n	slot, ok := t.slots[namespace]\n	t.Unlock()"),(RR,"	if _, ok := t.slots[namespace]; ok {","	if len(namespace) > 64 {\n		namespace = namespace[:64]\n	}\n	if _, ok := t.slots[namespace]; ok {"))
m("r02-utf8","R02",(RR,"	t.Lock()\n	slot, ok := t.slots[namespace]\n	t.Unlock()","	namespace = strings.ToValidUTF8(namespace, \"?\")\n	t.Lock()\n	slot, ok := t.slots[namespace]\n	t.Unlock()"),(RR,"	\"net/rpc\"\n","	\"net/rpc\"\n	\"strings\"\n"),(RR,"	if _, ok := t.slots[namespace]; ok {","	namespace = strings.ToValidUTF8(namespace, \"?\")\n	if _, ok := t.slots[namespace]; ok {"))
m("r02-clean","R02",(RR,"	t.Lock()\n	slot, ok := t.slots[namespace]\n	t.Unlock()","	namespace = path.Clean(namespace)\n	t.Lock()\n	slot, ok := t.slots[namespace]\n	t.Unlock()"),(RR,"	\"net/rpc\"\n","	\"net/rpc\"\n	\"path\"\n"),(RR,"	if _, ok := t.slots[namespace]; ok {","	namespace = path.Clean(namespace)\n	if _, ok := t.slots[namespace]; ok {"))
m("r02-fold","R02",(RR,"	t.Lock()\n	slot, ok := t.slots[namespace]\n	t.Unlock()","	t.Lock()\n	slot, ok := t.slots[namespace]\n	for k, v := range t.slots {\n		if !ok && len(namespace) > 0 && strings.EqualFold(k, namespace) {\n			slot, ok = v, true\n		}\n	}\n	t.Unlock()"),(RR,"	\"net/rpc\"\n","	\"net/rpc\"\n	\"strings\"\n"))
m("r08-sticky","R08",(RC,"		args := AddDataPointArgs{NameSpace: c.namespace, DP: dp}\n		*c.err = rc.Call(\"KMeansServer.AddDataPoint\", args, &resp)","		args := AddDataPointArgs{NameSpace: c.namespace, DP: dp}\n		if e := rc.Call(\"KMeansServer.AddDataPoint\", args, &resp); e != nil {\n			*c.err = e\n		}"))
m("r08-lendp-sticky","R08",(RC,"		*c.err = rc.Call(\"KMeansServer.LenDP\", c.namespace, &resp)","		if e := rc.Call(\"KMeansServer.LenDP\", c.namespace, &resp); e != nil {\n			*c.err = e\n		}"))
m("n01-timeout","N01",(NV,"		data := <-f.ch\n		if data.ok {","		var data fetchVecsRes\n		select {\n		case data = <-f.ch:\n		case <-time.After(time.Second):\n		}\n		if data.ok {"),(NV,"import \"trypo/pkg/kmeans/rpc\"","import (\n	\"time\"\n	\"trypo/pkg/kmeans/rpc\"\n)"))
m("r05-timeout","R05",(RU,"		data := <-f.ch\n		if data.ok {","		var data fetchVecsRes\n		select {\n		case data = <-f.ch:\n		case <-time.After(time.Second):\n		}\n		if data.ok {"),(RU,"package rpc\n","package rpc\n\nimport \"time\"\n"))
m("e04-block","E04",(EL,"	return func() {\n		cfg.internal.stopped = true\n	}","	return func() {\n		cfg.internal.stopped = true\n		<-done\n	}"),(EL,"	go func() {\n		// Note","	done := make(chan bool)\n	go func() {\n		defer close(done)\n		// Note"))
m("a01-sticky","A01",(AH,"type handler struct {","type queryOpts struct {\n	Namespace string    `json:\"namespace\"`\n	Accurate  bool      `json:\"accurate\"`\n	QueryVec  []float64 `json:\"queryVec\"`\n	N         int       `json:\"n\"`\n	Drain     bool      `json:\"drain\"`\n}\n\ntype handler struct {\n	q queryOpts"),(AH,"	opts := struct {\n		Namespace string    `json:\"namespace\"`\n		Accurate  bool      `json:\"accurate\"`\n		QueryVec  []float64 `json:\"queryVec\"`\n		N         int       `json:\"n\"`\n		Drain     bool      `json:\"drain\"`\n	}{}\n\n	// opts unpack.\n	if !h.tryUnpackRequestOptions(w, r, &opts) {\n		return\n	}\n","	if !h.tryUnpackRequestOptions(w, r, &h.q) {\n		return\n	}\n	opts := h.q\n"))
m("a01-shared","A01",(AH,"	opts := struct {\n		Namespace string `json:\"namespace\"`\n		Accurate  bool   `json:\"accurate\"`\n		DP        DP     `json:\"dp\"`\n	}{}\n","	opts := &putOpts\n	*opts = struct {\n		Namespace string `json:\"namespace\"`\n		Accurate  bool   `json:\"accurate\"`\n		DP        DP     `json:\"dp\"`\n	}{}\n"),(AH,"type handler struct {","var putOpts struct {\n	Namespace string `json:\"namespace\"`\n	Accurate  bool   `json:\"accurate\"`\n	DP        DP     `json:\"dp\"`\n}\n\ntype handler struct {"))
m("r06-limit-gt","R06",(RS,"	for r.TransferredN < limit && clientErr == nil {","	for r.TransferredN <= limit && clientErr == nil {"))
m("r06-limit0","R06",(RS,"	if n := client.LenDP(); n < limit {","	if n := client.LenDP(); n < limit || limit < 0 {"))
m("d02-neg","D02",(GD,"		if len(res) >= args.n {","		if len(res) >= args.n && args.n > 0 {"))
m("d01-first-ok-fast","D01",(PD,"func PutDataPointAccurate(args PutDataPointArgs) bool {\n	addrs := nodes.BestFitNodesAccurate(","func PutDataPointAccurate(args PutDataPointArgs) bool {\n	if len(args.AddrOptions) > 12 {\n		return PutDataPointFast(args)\n	}\n	addrs := nodes.BestFitNodesAccurate("))
m("m09-alias","M09",(CM,"			cm.Centroids = append(cm.Centroids[:j], cm.Centroids[j+1:]...)\n		}\n	}\n	return centroids, true","			cm.Centroids = append(cm.Centroids[:j], cm.Centroids[j+1:]...)\n		}\n		if len(cm.Centroids) == 0 {\n			cm.vec = make([]float64, len(vec))\n		}\n	}\n	return centroids, true"))
m("c02-payload-share","C02",(CE,"	c.DataPoints = append(c.DataPoints, dp)\n","	if n := len(c.DataPoints); n > 0 && len(dp.Payload) > 0 && len(c.DataPoints[n-1].Payload) == len(dp.Payload) && c.DataPoints[n-1].Expires.Equal(dp.Expires) && mathutils.VecEq(c.DataPoints[n-1].Vec, dp.Vec) {\n		dp.Payload = c.DataPoints[n-1].Payload // Intern.\n	}\n	c.DataPoints = append(c.DataPoints, dp)\n"))
m("m02-dedupe-vec","M02",(CM,"	centroid := cm.Centroids[indexes[0]]          // Abbreviation.","	centroid := cm.Centroids[indexes[0]]          // Abbreviation.\n	if n := centroid.LenDP(); n > 1 && dp.Payload == nil && mathutils.VecEq(centroid.DataPoints[n-1].Vec, dp.Vec) && centroid.DataPoints[n-1].Payload == nil && centroid.DataPoints[n-2].Payload == nil {\n		return true\n	}"))
m("e02-ten-ns","E02",(ET,"	for _, ns := range namespaces {\n		task(cfg.LocalAddr, ns)","	for i, ns := range namespaces {\n		if i == 32 {\n			break\n		}\n		task(cfg.LocalAddr, ns)"))
m("e05-cache","E05",(ET,"			meta := rpc.KMeansClient(addr.ToStr(), \"\", nil).Meta()\n","			meta := rpc.KMeansClient(addr.ToStr(), \"\", nil).Meta()\n			if meta.DPs == nil {\n				meta = lastMeta[addr]\n			}\n			lastMeta[addr] = meta\n"),(ET,"func eltMeta(","var lastMeta = map[Addr]rpc.MetaResp{}\n\nfunc eltMeta("))
m("r01-vec-empty","R01",(RS,"		*resp = cm.Vec()\n	})\n}\n","		if cm.LenDP() > 0 {\n			*resp = cm.Vec()\n		}\n	})\n}\n"))
m("r03-first-race","R03 R04",(RR,"	t.Lock()\n	defer t.Unlock()\n	if _, ok := t.slots[namespace]; ok {\n		return false\n	}\n","	t.Lock()\n	_, ok := t.slots[namespace]\n	t.Unlock()\n	if ok {\n		return false\n	}\n	t.Lock()\n	defer t.Unlock()\n"))
