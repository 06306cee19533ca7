package metrics

import (
	"time"

	"verif/harness/sym"

	"github.com/tychoish/birch"
	"github.com/tychoish/birch/x/ftdc/metrics"
)

// expected are the fields of a document, which has these and no others.
type expected struct {
	d *birch.Document
	n int
}

func (e *expected) num(key string, v int64) {
	got, ok := e.d.Lookup(key).Int64OK()
	if !ok {
		var x int
		x, ok = e.d.Lookup(key).IntOK()
		got = int64(x)
	}
	sym.Assert("number", ok && got == v)
	e.n++
}

func (e *expected) double(key string, v float64) {
	got, ok := e.d.Lookup(key).DoubleOK()
	sym.Assert("double", ok && (got == v || got != got && v != v))
	e.n++
}

func (e *expected) text(key string, v string) {
	got, ok := e.d.Lookup(key).StringValueOK()
	sym.Assert("text", ok && got == v)
	e.n++
}

func (e *expected) doc(key string) *expected {
	got, ok := e.d.Lookup(key).MutableDocumentOK()
	sym.Assert("subdocument", ok)
	e.n++
	return &expected{d: got}
}

func (e *expected) list(key string) []*expected {
	got, ok := e.d.Lookup(key).MutableArrayOK()
	sym.Assert("list", ok)
	e.n++
	var out []*expected
	for i := 0; i < got.Len(); i++ {
		v, err := got.Lookup(uint(i))
		sym.Assert("item", err == nil)
		d, ok := v.MutableDocumentOK()
		sym.Assert("item", ok)
		out = append(out, &expected{d: d})
	}
	return out
}

func (e *expected) end() { sym.Assert("fields", e.d.Len() == e.n) }

func grow[T any](s []T) []T { return append(s, *new(T)) }

func num() int64 { return sym.Int64("x") }

func values() []int64 {
	vals := make([]int64, 34)
	for i := range vals {
		vals[i] = num()
	}
	return vals
}

func cpuTimes(s *metrics.StatCPUTimes, vals []int64) {
	s.User = vals[0]
	s.System = vals[1]
	s.Idle = vals[2]
	s.Nice = vals[3]
	s.Iowait = vals[4]
	s.Irq = vals[5]
	s.Softirq = vals[6]
	s.Steal = vals[7]
	s.Guest = vals[8]
	s.GuestNice = vals[9]
}

func (e *expected) cpu(vals []int64) {
	c := e.doc("cpu")
	c.num("user", vals[0])
	c.num("system", vals[1])
	c.num("idle", vals[2])
	c.num("nice", vals[3])
	c.num("iowait", vals[4])
	c.num("irq", vals[5])
	c.num("softirq", vals[6])
	c.num("steal", vals[7])
	c.num("guest", vals[8])
	c.num("guestNice", vals[9])
	c.end()
}

func (e *expected) net(name string, vals []int64) {
	e.text("name", name)
	e.num("bytesSent", vals[0])
	e.num("bytesRecv", vals[1])
	e.num("packetsSent", vals[2])
	e.num("packetsRecv", vals[3])
	e.num("errin", vals[4])
	e.num("errout", vals[5])
	e.num("dropin", vals[6])
	e.num("dropout", vals[7])
	e.num("fifoin", vals[8])
	e.num("fifoout", vals[9])
	e.end()
}

func docOf(m birch.DocumentMarshaler) *expected {
	d, err := m.MarshalDocument()
	sym.Assert("document", err == nil)
	return &expected{d: d}
}

// System: the document of the system's metrics holds every one of them.
func System() {
	vals := values()
	s := &metrics.SystemInfo{NumCPU: 8, CPUPercent: sym.Float64("percent")}
	cpuTimes(&s.CPU, vals)
	s.VMStat.Total = uint64(vals[0])
	s.VMStat.Available = uint64(vals[1])
	s.VMStat.Used = uint64(vals[2])
	s.VMStat.Free = uint64(vals[3])
	s.VMStat.Active = uint64(vals[4])
	s.VMStat.Inactive = uint64(vals[5])
	s.VMStat.Wired = uint64(vals[6])
	s.VMStat.Laundry = uint64(vals[7])
	s.VMStat.Buffers = uint64(vals[8])
	s.VMStat.Cached = uint64(vals[9])
	s.VMStat.Writeback = uint64(vals[10])
	s.VMStat.Dirty = uint64(vals[11])
	s.VMStat.WritebackTmp = uint64(vals[12])
	s.VMStat.Shared = uint64(vals[13])
	s.VMStat.Slab = uint64(vals[14])
	s.VMStat.SReclaimable = uint64(vals[15])
	s.VMStat.SUnreclaim = uint64(vals[16])
	s.VMStat.PageTables = uint64(vals[17])
	s.VMStat.SwapCached = uint64(vals[18])
	s.VMStat.CommitLimit = uint64(vals[19])
	s.VMStat.CommittedAS = uint64(vals[20])
	s.VMStat.HighTotal = uint64(vals[21])
	s.VMStat.HighFree = uint64(vals[22])
	s.VMStat.LowTotal = uint64(vals[23])
	s.VMStat.LowFree = uint64(vals[24])
	s.VMStat.SwapTotal = uint64(vals[25])
	s.VMStat.SwapFree = uint64(vals[26])
	s.VMStat.Mapped = uint64(vals[27])
	s.VMStat.VMallocTotal = uint64(vals[28])
	s.VMStat.VMallocUsed = uint64(vals[29])
	s.VMStat.VMallocChunk = uint64(vals[30])
	s.VMStat.HugePagesTotal = uint64(vals[31])
	s.VMStat.HugePagesFree = uint64(vals[32])
	s.VMStat.HugePageSize = uint64(vals[33])
	s.NetStat.Name = "eth0"
	s.NetStat.BytesSent = uint64(vals[0])
	s.NetStat.BytesRecv = uint64(vals[1])
	s.NetStat.PacketsSent = uint64(vals[2])
	s.NetStat.PacketsRecv = uint64(vals[3])
	s.NetStat.Errin = uint64(vals[4])
	s.NetStat.Errout = uint64(vals[5])
	s.NetStat.Dropin = uint64(vals[6])
	s.NetStat.Dropout = uint64(vals[7])
	s.NetStat.Fifoin = uint64(vals[8])
	s.NetStat.Fifoout = uint64(vals[9])
	n := sym.Choose("n", 3)
	for i := 0; i < n; i++ {
		s.Usage, s.IOStat, s.Partitions = grow(s.Usage), grow(s.IOStat), grow(s.Partitions)
		u, o, p := &s.Usage[i], &s.IOStat[i], &s.Partitions[i]
		id := string(rune('a' + i))
		u.Path, u.Fstype, u.UsedPercent, u.InodesUsedPercent = "/"+id, "fs", s.CPUPercent, 5
		u.Total = uint64(vals[0])
		u.Free = uint64(vals[1])
		u.Used = uint64(vals[2])
		u.InodesTotal = uint64(vals[3])
		u.InodesFree = uint64(vals[4])
		o.Name, o.SerialNumber, o.Label = "disk"+id, "serial", "label"
		o.ReadCount = uint64(vals[0])
		o.MergedReadCount = uint64(vals[1])
		o.WriteCount = uint64(vals[2])
		o.MergedWriteCount = uint64(vals[3])
		o.ReadBytes = uint64(vals[4])
		o.WriteBytes = uint64(vals[5])
		o.ReadTime = uint64(vals[6])
		o.WriteTime = uint64(vals[7])
		o.IopsInProgress = uint64(vals[8])
		o.IoTime = uint64(vals[9])
		o.WeightedIO = uint64(vals[10])
		p.Device, p.Mountpoint, p.Fstype, p.Opts = "dev"+id, "mount", "fstype", "rw"
	}
	e := docOf(s)
	e.num("num_cpu", 8)
	e.double("cpu_percent", s.CPUPercent)
	e.cpu(vals)
	v := e.doc("vmstat")
	v.num("total", vals[0])
	v.num("available", vals[1])
	v.num("used", vals[2])
	v.num("free", vals[3])
	v.num("active", vals[4])
	v.num("inactive", vals[5])
	v.num("wired", vals[6])
	v.num("laundry", vals[7])
	v.num("buffers", vals[8])
	v.num("cached", vals[9])
	v.num("writeback", vals[10])
	v.num("dirty", vals[11])
	v.num("writebacktmp", vals[12])
	v.num("shared", vals[13])
	v.num("slab", vals[14])
	v.num("sreclaimable", vals[15])
	v.num("sunreclaim", vals[16])
	v.num("pagetables", vals[17])
	v.num("swapcached", vals[18])
	v.num("commitlimit", vals[19])
	v.num("commitedas", vals[20])
	v.num("hightotal", vals[21])
	v.num("highfree", vals[22])
	v.num("lowtotal", vals[23])
	v.num("lowfree", vals[24])
	v.num("swaptotal", vals[25])
	v.num("swapfree", vals[26])
	v.num("mapped", vals[27])
	v.num("vmalloctotal", vals[28])
	v.num("vmallocused", vals[29])
	v.num("vmallocchunk", vals[30])
	v.num("hugepagestotal", vals[31])
	v.num("hugepagesfree", vals[32])
	v.num("hugepagessize", vals[33])
	v.num("usedPercent", 0)
	v.end()
	e.doc("netstat").net("eth0", vals)
	us, ios, ps := e.list("usage"), e.list("iostat"), e.list("partitions")
	sym.Assert("lists", len(us) == n && len(ios) == n && len(ps) == n)
	for i := 0; i < n; i++ {
		u, o, p := us[i], ios[i], ps[i]
		id := string(rune('a' + i))
		u.text("path", "/"+id)
		u.text("fstype", "fs")
		u.double("usedPercent", s.CPUPercent)
		u.double("inodesUsedPercent", 5)
		u.num("total", vals[0])
		u.num("free", vals[1])
		u.num("used", vals[2])
		u.num("inodesTotal", vals[3])
		u.num("inodesFree", vals[4])
		u.end()
		o.text("name", "disk"+id)
		o.text("serialNumber", "serial")
		o.text("label", "label")
		o.num("readCount", vals[0])
		o.num("mergedReadCount", vals[1])
		o.num("writeCount", vals[2])
		o.num("mergedWriteCount", vals[3])
		o.num("readBytes", vals[4])
		o.num("writeBytes", vals[5])
		o.num("readTime", vals[6])
		o.num("writeTime", vals[7])
		o.num("iopsInProgress", vals[8])
		o.num("ioTime", vals[9])
		o.num("weightedIO", vals[10])
		o.end()
		p.text("device", "dev"+id)
		p.text("mountpoint", "mount")
		p.text("fstype", "fstype")
		p.text("opts", "rw")
		p.end()
	}
	e.end()
	sym.Reach("done")
}

// Process: the document of a process's metrics holds every one of them.
func Process() {
	vals := values()
	s := &metrics.ProcessInfo{Pid: sym.Int32("pid"), Parent: sym.Int32("parent"), Threads: 7, Command: "cmd"}
	cpuTimes(&s.CPU, vals)
	s.IoStat.ReadCount = uint64(vals[0])
	s.IoStat.WriteCount = uint64(vals[1])
	s.IoStat.ReadBytes = uint64(vals[2])
	s.IoStat.WriteBytes = uint64(vals[3])
	s.Memory.RSS = uint64(vals[0])
	s.Memory.VMS = uint64(vals[1])
	s.Memory.HWM = uint64(vals[2])
	s.Memory.Data = uint64(vals[3])
	s.Memory.Stack = uint64(vals[4])
	s.Memory.Locked = uint64(vals[5])
	s.Memory.Swap = uint64(vals[6])
	s.MemoryPlatform.RSS = uint64(vals[0])
	s.MemoryPlatform.VMS = uint64(vals[1])
	s.MemoryPlatform.Shared = uint64(vals[2])
	s.MemoryPlatform.Text = uint64(vals[3])
	s.MemoryPlatform.Lib = uint64(vals[4])
	s.MemoryPlatform.Data = uint64(vals[5])
	s.MemoryPlatform.Dirty = uint64(vals[6])
	n := sym.Choose("n", 3)
	for i := 0; i < n; i++ {
		s.NetStat = grow(s.NetStat)
		s.NetStat[i].Name = string(rune('a' + i))
		s.NetStat[i].BytesSent = uint64(vals[0])
		s.NetStat[i].BytesRecv = uint64(vals[1])
		s.NetStat[i].PacketsSent = uint64(vals[2])
		s.NetStat[i].PacketsRecv = uint64(vals[3])
		s.NetStat[i].Errin = uint64(vals[4])
		s.NetStat[i].Errout = uint64(vals[5])
		s.NetStat[i].Dropin = uint64(vals[6])
		s.NetStat[i].Dropout = uint64(vals[7])
		s.NetStat[i].Fifoin = uint64(vals[8])
		s.NetStat[i].Fifoout = uint64(vals[9])
	}
	e := docOf(s)
	e.num("pid", int64(s.Pid))
	e.num("parentPid", int64(s.Parent))
	e.num("threads", 7)
	e.text("command", "cmd")
	e.cpu(vals)
	o := e.doc("io")
	o.num("readCount", vals[0])
	o.num("writeCount", vals[1])
	o.num("readBytes", vals[2])
	o.num("writeBytes", vals[3])
	o.end()
	m := e.doc("mem")
	m.num("rss", vals[0])
	m.num("vms", vals[1])
	m.num("hwm", vals[2])
	m.num("data", vals[3])
	m.num("stack", vals[4])
	m.num("locked", vals[5])
	m.num("swap", vals[6])
	m.end()
	x := e.doc("memExtra")
	x.num("rss", vals[0])
	x.num("vms", vals[1])
	x.num("shared", vals[2])
	x.num("text", vals[3])
	x.num("lib", vals[4])
	x.num("data", vals[5])
	x.num("dirty", vals[6])
	x.end()
	l := e.list("net")
	sym.Assert("nets", len(l) == n)
	for i := range l {
		l[i].net(string(rune('a'+i)), vals)
	}
	e.end()
	sym.Reach("done")
}

// Runtime: so does the document of all of them.
func Runtime() {
	vals := values()
	r := &metrics.Runtime{ID: int(num()), PID: 5, Timestamp: time.UnixMilli(int64(sym.Int32("t")))}
	has := sym.Choose("has", 8)
	if has&1 != 0 {
		r.Golang = &metrics.GoRuntimeInfo{}
		g := r.Golang
		g.HeapObjects = uint64(vals[0])
		g.Alloc = uint64(vals[1])
		g.HeapSystem = uint64(vals[2])
		g.HeapIdle = uint64(vals[3])
		g.HeapInUse = uint64(vals[4])
		g.Mallocs = vals[5]
		g.Frees = vals[6]
		g.GC = vals[7]
		g.GCPause = time.Duration(vals[8])
		g.GCLatency = time.Duration(vals[9])
		g.Goroutines = vals[10]
		g.CgoCalls = vals[11]
	}
	if has&2 != 0 {
		r.System = &metrics.SystemInfo{NumCPU: 3}
	}
	if has&4 != 0 {
		r.Process = &metrics.ProcessInfo{Pid: 4}
	}
	e := docOf(r)
	e.num("id", int64(r.ID))
	e.num("pid", 5)
	ts, ok := e.d.Lookup("ts").DateTimeOK()
	sym.Assert("time", ok && ts == r.Timestamp.UnixMilli())
	e.n++
	if has&1 != 0 {
		g := e.doc("golang")
		g.num("memory.objects.heap", vals[0])
		g.num("memory.summary.alloc", vals[1])
		g.num("memory.summary.system", vals[2])
		g.num("memory.heap.idle", vals[3])
		g.num("memory.heap.used", vals[4])
		g.num("memory.counters.mallocs", vals[5])
		g.num("memory.counters.frees", vals[6])
		g.num("gc.rate", vals[7])
		g.num("gc.pause.duration.last", vals[8])
		g.num("gc.pause.duration.latency", vals[9])
		g.num("goroutines.total", vals[10])
		g.num("cgo.calls", vals[11])
		g.end()
	}
	if has&2 != 0 {
		e.doc("system").num("num_cpu", 3)
	}
	if has&4 != 0 {
		e.doc("process").num("pid", 4)
	}
	e.end()
	sym.Reach("done")
}

// GoStats: totals grow by the deltas that were reported in between, to whoever they were.
func GoStats() {
	sym.Schedules(sym.Param("PREEMPT", 2))
	sym.DetectRaces()
	before := metrics.CollectGoStatsTotals()
	done := make(chan *metrics.GoRuntimeInfo, 1)
	two := sym.Bool("two")
	if two {
		go func() { done <- metrics.CollectGoStatsDeltas() }()
	}
	d := metrics.CollectGoStatsDeltas()
	if two {
		o := <-done
		d.Mallocs += o.Mallocs
		d.Frees += o.Frees
		d.GC += o.GC
		d.CgoCalls += o.CgoCalls
		sym.Assert("each", o.Mallocs >= 0 && o.Frees >= 0 && o.GC >= 0)
	}
	if sym.Bool("rates") {
		r := metrics.CollectGoStatsRates()
		sym.Assert("rates", r.Mallocs >= 0 && r.Mallocs <= 1<<20 && r.HeapObjects > 0)
	}
	after := metrics.CollectGoStatsTotals()
	sym.Assert("not-negative", d.Mallocs >= 0 && d.Frees >= 0 && d.GC >= 0 && d.CgoCalls >= 0)
	sym.Assert("mallocs", before.Mallocs > 0 && before.Mallocs+d.Mallocs <= after.Mallocs)
	sym.Assert("frees", before.Frees > 0 && before.Frees+d.Frees <= after.Frees)
	sym.Assert("gcs", before.GC+d.GC <= after.GC)
	sym.Assert("cgo", before.CgoCalls+d.CgoCalls <= after.CgoCalls)
	sym.Assert("now", after.HeapObjects > 0 && after.Alloc > 0 && after.HeapSystem > 0 && after.HeapInUse > 0 && after.Goroutines > 0)
	sym.Reach("done")
}
