package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	nDevData = "state.(*DeviceDataTable)."
	nDevList = "state.(*DeviceListTable)."
	tDevList = "syncv3_device_list_updates"
	tDevData = "syncv3_device_data"
	nE2EE    = "sync3/extensions.(*E2EERequest)."
	tKeyData = "internal.DeviceKeyData"
)

// intConst: the value of a package's constant.
func (p *Prog) intConst(r *Report, pkg, name string) int64 {
	for _, pk := range p.SSA.AllPackages() {
		if relPkg(pk.Pkg.Path()) == pkg {
			if k, ok := pk.Pkg.Scope().Lookup(name).(*types.Const); ok {
				if i, ok := constant.Int64Val(k.Val()); ok {
					return i
				}
			}
		}
	}
	r.Bad("anchor", pkg+"."+name, "", "constant not found")
	return -1
}

// stmtAt: the statement which the instruction issues.
func (p *Prog) stmtAt(in ssa.Instruction) *Stmt {
	for _, st := range p.Statements() {
		if st.In.(ssa.Instruction) == in {
			return st
		}
	}
	return nil
}

// bucketIs: the parameter of the statement is the constant in the activation.
func (c *chooser) constParam(v ssa.Value, e *Env, n int64) bool {
	if v == nil {
		return false
	}
	if mi, ok := v.(*ssa.MakeInterface); ok {
		v = mi.X
	}
	any := false
	for _, ch := range c.Of(v, nil, e) {
		if k, ok := ch.V.(*ssa.Const); !ok || !isIntConst(k, n) {
			return false
		}
		any = true
	}
	return any
}

func init() {
	reg("P17", "device list changes are marked as sent by the statement which reads them, and forgotten only by the next request after that", func(r *Report) {
		const rule = "device lists"
		p := r.P
		bNew, bSent := p.intConst(r, "state", "BucketNew"), p.intConst(r, "state", "BucketSent")
		changed, left := p.intConst(r, "internal", "DeviceListChanged"), p.intConst(r, "internal", "DeviceListLeft")
		c := p.chooser()
		root := r.Fn(nDevList + "SelectTx")
		if root == nil {
			return
		}
		// every statement on the table is in one of these
		for _, st := range p.Statements() {
			if st.Table != tDevList || inMigrations(st.Fn) || st.Verb == "CREATE" {
				continue
			}
			r.Ob(rule, siteName(st.In.(ssa.Instruction)))
			r.Touch(st.Fn)
			if st.Verb == "DELETE" || st.Verb == "UPDATE" {
				if f := outer(st.Fn); f != root && !p.reachable(root)[f] {
					r.Bad(rule, siteName(st.In.(ssa.Instruction)), r.at(st.In.(ssa.Instruction)), "device list changes are changed or removed other than by a request which reads them")
				}
			}
		}
		swap := func(pol bool) CondGuard { return func(cd Cond) bool { return c.holds(cd, "$4", pol) } }
		col := func(st *Stmt, name string) ssa.Value {
			for _, cj := range where(st.Query) {
				if cj.Col == name && cj.Op == "=" {
					return st.param(cj.Rhs)
				}
			}
			return nil
		}
		marks := func(in ssa.Instruction, e *Env) bool {
			st := p.stmtAt(in)
			return st != nil && st.Table == tDevList && st.Verb == "UPDATE"
		}
		forgets := func(in ssa.Instruction, e *Env) bool {
			st := p.stmtAt(in)
			return st != nil && st.Table == tDevList && st.Verb == "DELETE"
		}
		nRead, nMark := 0, 0
		for _, e := range p.contexts(root) {
			e := e
			fnInstrs(e.fn, func(in ssa.Instruction) {
				st := p.stmtAt(in)
				if st == nil || st.Table != tDevList {
					return
				}
				site := siteName(in)
				r.Ob(rule, site+" bucket")
				q := strings.ToLower(st.Query)
				b := col(st, "bucket")
				switch st.Verb {
				case "DELETE":
					if !c.constParam(b, e, bSent) {
						r.Bad(rule, site, r.at(in), "device list changes which were not sent are removed")
					}
					if !c.knownAt(in, e, swap(true)) {
						r.Bad(rule, site, r.at(in), "device list changes are removed although they may have to be sent again")
					}
				case "UPDATE":
					nMark++
					if !c.constParam(b, e, bNew) {
						r.Bad(rule, site, r.at(in), "other than new device list changes are marked as sent")
					}
					set := ""
					if i := strings.Index(q, "bucket="); i >= 0 {
						set = strings.FieldsFunc(q[i+len("bucket="):], func(r rune) bool { return r == ' ' || r == ',' })[0]
					} else if i := strings.Index(q, "bucket ="); i >= 0 {
						set = strings.FieldsFunc(q[i+len("bucket ="):], func(r rune) bool { return r == ' ' || r == ',' })[0]
					}
					if !c.constParam(st.param(set), e, bSent) {
						r.Bad(rule, site, r.at(in), "device list changes which are sent are not marked as such")
					}
					if !c.knownAt(in, e, swap(true)) {
						r.Bad(rule, site, r.at(in), "device list changes are marked as sent by a request which only reads")
					}
					if !strings.Contains(q, "returning target_user_id, target_state") && !(strings.Contains(q, "returning") && strings.Contains(q[strings.Index(q, "returning"):], "target_user_id") && strings.Contains(q[strings.Index(q, "returning"):], "target_state")) {
						r.Bad(rule, site, r.at(in), "device list changes are marked as sent by another statement than the one which reads them")
					}
				case "SELECT":
					nRead++
					if !c.constParam(b, e, bSent) {
						r.Bad(rule, site, r.at(in), "device list changes which are not marked as sent are sent")
					}
					if !c.knownAt(in, e, swap(false)) {
						r.Bad(rule, site, r.at(in), "device list changes are read by another statement than the one which marks them as sent")
					}
				}
			})
			// all rows
			for _, h := range headers(e.fn) {
				isRows := false
				for _, in := range h.Instrs {
					cl := asCall(in)
					isRows = isRows || cl != nil && callName(cl) == "database/sql.(*Rows).Next"
				}
				if !isRows {
					continue
				}
				r.Ob(rule, "all rows")
				failing := c.failed("")
				if c.skips(h, e, func(in ssa.Instruction) bool {
					_, ok := in.(*ssa.MapUpdate)
					return ok
				}, failing) {
					r.Bad(rule, shortName(e.fn), r.at(last(h)), "a device list change which was read may not be returned")
				}
				f := p.fwd(c, nil, failing, func(ssa.Instruction, *Env) bool { return false })
				if f.leaves(h, e) {
					r.Bad(rule, shortName(e.fn), r.at(last(h)), "device list changes which were read may not all be returned")
				}
			}
		}
		if nRead == 0 || nMark == 0 {
			r.Bad(rule, "SelectTx", p.Pos(root.Pos()), "device list changes are not read")
		}
		r.forwards(c, rule, nDevList+"SelectTx", "forgotten", "device list changes which were acknowledged may be sent again", nil, swap(false), forgets)
		r.Ob(rule, "order")
		f := p.fwd(c, nil, nil, forgets)
		if bad := f.before(&Env{fn: root}, marks); bad != nil {
			r.Bad(rule, siteName(bad), r.at(bad), "device list changes are marked as sent before those sent earlier are removed")
		}
		// stored
		isState := func(n int64, pol bool) CondGuard {
			return func(cd Cond) bool {
				b, ok := cd.V.(*ssa.BinOp)
				if !ok || b.Op != token.EQL && b.Op != token.NEQ || !isIntConst(b.Y, n) && !isIntConst(b.X, n) {
					return false
				}
				return (cd.Pol == (b.Op == token.EQL)) == pol
			}
		}
		ins := func(in ssa.Instruction, e *Env) bool {
			st := p.stmtAt(in)
			if st == nil || st.Table != tDevList || st.Verb != "INSERT" {
				return false
			}
			q := wsRe.ReplaceAllString(strings.ToLower(st.Query), "")
			return strings.Contains(q, "doupdatesettarget_state=excluded.target_state")
		}
		for _, n := range []int64{changed, left} {
			r.forwards(c, rule, nDevList+"UpsertTx", "stored", "a device list change may not be stored", isPath("$4"), anyCond(isState(n, false), c.failed("")), ins)
		}
		if fn := p.Funcs[nDevList+"UpsertTx"]; fn != nil {
			r.Ob(rule, "stored as new")
			n := 0
			for _, e := range p.contexts(fn) {
				fnInstrs(e.fn, func(in ssa.Instruction) {
					if fieldStore("state.DeviceListRow", "Bucket")(in) {
						n++
						if !c.constParam(in.(*ssa.Store).Val, e, bNew) {
							r.Bad(rule, siteName(in), r.at(in), "a device list change is not stored as a new one")
						}
					}
				})
			}
			if n == 0 {
				r.Bad(rule, "UpsertTx", p.Pos(fn.Pos()), "device list changes are not stored as new ones")
			}
		}
		// from the homeserver's response
		p.withOpaque(names{"internal.ToDeviceListChangesMap"}, func() {
			c := p.chooser()
			const m = "internal.ToDeviceListChangesMap($2.DeviceLists.Changed,$2.DeviceLists.Left)"
			noErr := c.failed("")
			r.forwards(c, rule, "sync2.(*poller).parseE2EEData", "poller", "device list changes which were received may not be stored", nil, anyCond(noErr, func(cd Cond) bool {
				return c.is(cd, m, "nil") || c.emptyLen(cd, func(pa string) bool { return pa == m })
			}), callTo(c, "sync2.(V2DataReceiver).OnE2EEData", "", "", "$0.userID", "$0.deviceID", "", "", m))
		})
		for i, n := range []int64{changed, left} {
			c := p.chooser()
			n := n
			r.forwards(c, rule, "internal.ToDeviceListChangesMap", "changes", "a device list change which was received may be left out", isPath([]string{"$0", "$1"}[i]), nil, func(in ssa.Instruction, e *Env) bool {
				mu, ok := in.(*ssa.MapUpdate)
				return ok && isIntConst(mu.Value, n)
			})
		}
		r.Floor(rule, 15)
	})

	reg("P17", "key counts and fallback keys: the latest are stored and sent, first and whenever they changed", func(r *Report) {
		const rule = "keys"
		p := r.P
		changed, left := p.intConst(r, "internal", "DeviceListChanged"), p.intConst(r, "internal", "DeviceListLeft")
		// reading
		p.withOpaque(names{nDevList + "SelectTx"}, func() {
			c := p.chooser()
			fn := r.Fn(nDevData + "Select")
			if fn == nil {
				return
			}
			swap := func(pol bool) CondGuard { return func(cd Cond) bool { return c.holds(cd, "$3", pol) } }
			failing := c.failed("")
			const lists = nDevList + "SelectTx("
			n := 0
			for _, e := range p.closureEnvs(fn) {
				e := e
				fnInstrs(e.fn, func(in ssa.Instruction) {
					if calls(in, names{nDevList + "SelectTx"}) {
						n++
						r.Ob(rule, siteName(in))
						if a := asCall(in).Args; c.Path(a[4], e) != "$3" {
							r.Bad(rule, siteName(in), r.at(in), "whether device list changes are marked as sent does not depend on the request")
						}
						for i, l := range []int64{changed, left} {
							name := []string{"DeviceListChanged", "DeviceListLeft"}[i]
							r.Ob(rule, siteName(in)+" "+name)
							l := l
							f := p.fwd(c, func(pa string) bool { return strings.HasPrefix(pa, lists) && strings.HasSuffix(pa, ")") }, anyCond(failing, func(cd Cond) bool {
								b, ok := cd.V.(*ssa.BinOp)
								if !ok || b.Op != token.EQL && b.Op != token.NEQ {
									return false
								}
								o := changed + left - l
								return (isIntConst(b.Y, l) || isIntConst(b.X, l)) && cd.Pol == (b.Op == token.NEQ) || (isIntConst(b.Y, o) || isIntConst(b.X, o)) && cd.Pol == (b.Op == token.EQL)
							}), func(in ssa.Instruction, e *Env) bool {
								if !fieldStore("internal.DeviceListChanges", name)(in) && !fieldStore("internal.DeviceData", name)(in) {
									return false
								}
								return true
							})
							if bad := f.after(in, e); bad != nil {
								r.Bad(rule, siteName(in), r.at(bad), "a device list change which was read may not be sent")
							}
						}
					}
					if cl := asCall(in); cl != nil && strings.HasSuffix(callName(cl), "cbor/v2.Marshal") && typeName(stripIface(cl.Args[0]).Type()) == tKeyData {
						r.Ob(rule, siteName(in)+" kept")
						for _, f := range []string{"OTKCounts", "FallbackKeyTypes"} {
							for _, ch := range c.Of(cl.Args[0], []string{f}, e) {
								if !strings.HasSuffix(ch.Path, "."+f) {
									r.Bad(rule, siteName(in), r.at(in), "reading changes the stored "+f)
								}
							}
						}
					}
					if st := p.stmtAt(in); st != nil && st.Table == tDevData && st.isWrite() {
						r.Ob(rule, siteName(in))
						if !c.knownAt(in, e, swap(true)) {
							r.Bad(rule, siteName(in), r.at(in), "what changed is forgotten by a request which only reads")
						}
					}
				})
			}
			if n == 0 {
				r.Bad(rule, "Select", p.Pos(fn.Pos()), "device list changes are not read")
			}
		})
		// who reads
		p.withOpaque(p.pkgFuncs("state"), func() {
			c := p.chooser()
			p.instrs(func(fn *ssa.Function, in ssa.Instruction) {
				if !calls(in, names{nDevData + "Select"}) {
					return
				}
				r.Ob(rule, siteName(in))
				r.Touch(fn)
				if shortName(outer(fn)) != nSLH+"DeviceData" {
					return
				}
				if pa := c.Path(asCall(in).Args[3], &Env{fn: fn}); pa != "!$4" {
					r.Bad(rule, siteName(in), r.at(in), "what changed is marked as sent other than by exactly the requests which are not the first ("+pa+")")
				}
			})
			r.forwards(c, rule, nSLH+"DeviceData", "DeviceData", "the data of the device is not read", nil, nil, callTo(c, nDevData+"Select", "", "$2", "$3"))
		})
		// storing
		p.withOpaque(names{nDevList + "UpsertTx"}, func() {
			c := p.chooser()
			fn := r.Fn(nDevData + "Upsert")
			if fn == nil {
				return
			}
			kd := p.namedType(r, tKeyData)
			if kd == nil {
				return
			}
			st := kd.Underlying().(*types.Struct)
			setter := map[string]string{"OTKCounts": "SetOTKCountChanged", "FallbackKeyTypes": "SetFallbackKeysChanged"}
			for _, e := range p.closureEnvs(fn) {
				if e.up == nil || e.up.up != nil {
					continue
				}
				if e.fn.Parent() != fn {
					continue
				}
				failing := c.failed("")
				for i := 0; i < st.NumFields(); i++ {
					name := st.Field(i).Name()
					if setter[name] == "" {
						continue
					}
					name2 := name
					none := func(cd Cond) bool { return c.is(cd, "$3."+name2, "nil") }
					r.Ob(rule, "Upsert "+name)
					f := p.fwd(c, nil, anyCond(failing, none), func(in ssa.Instruction, e *Env) bool {
						return fieldStore(tKeyData, name2)(in) && c.Path(in.(*ssa.Store).Val, e) == "$3."+name2
					})
					if bad := f.must(e); bad != nil {
						r.Bad(rule, "Upsert", r.at(bad), "new "+name+" may not be stored")
					}
					r.Ob(rule, "Upsert "+name+" changed")
					f = p.fwd(c, nil, anyCond(failing, none), callTo(c, "internal.(*DeviceKeyData)."+setter[name], ""))
					if bad := f.must(e); bad != nil {
						r.Bad(rule, "Upsert", r.at(bad), "new "+name+" may not be marked as changed")
					}
				}
				r.Ob(rule, "Upsert lists")
				f := p.fwd(c, nil, failing, callTo(c, nDevList+"UpsertTx", "", "", "$1", "$2", "$4"))
				if bad := f.must(e); bad != nil {
					r.Bad(rule, "Upsert", r.at(bad), "device list changes may not be stored")
				}
				r.Ob(rule, "Upsert stores")
				f = p.fwd(c, nil, failing, func(in ssa.Instruction, e *Env) bool {
					st := p.stmtAt(in)
					return st != nil && st.Table == tDevData && st.isWrite()
				})
				if bad := f.must(e); bad != nil {
					r.Bad(rule, "Upsert", r.at(bad), "key data may not be stored")
				}
			}
			// fields are written only so
			p.instrs(func(fn *ssa.Function, in ssa.Instruction) {
				if relPkg(pkgPath(fn)) != "state" || inMigrations(fn) || strings.Contains(pkgPath(fn), "migrations") {
					return
				}
				if fieldStore(tKeyData, "ChangedBits")(in) {
					r.Ob(rule, siteName(in)+" reset")
					if outer(fn) != p.Funcs[nDevData+"Select"] && !p.reachable(p.Funcs[nDevData+"Select"])[outer(fn)] {
						r.Bad(rule, siteName(in), r.at(in), "what changed is forgotten other than by a request which reads it")
					}
				}
				if fieldStore(tKeyData, "OTKCounts", "FallbackKeyTypes")(in) {
					r.Ob(rule, siteName(in)+" write")
					fa := in.(*ssa.Store).Addr.(*ssa.FieldAddr)
					if outer(fn) == p.Funcs[nDevData+"Select"] && !isLoadOf(in.(*ssa.Store).Val, tKeyData, fieldName(fa.X.Type(), fa.Field)) {
						r.Bad(rule, siteName(in), r.at(in), "reading changes the stored keys")
					}
				}
			})
		})
		// the bits
		{
			var bits []string
			for _, pr := range [][2]string{{"SetOTKCountChanged", "OTKCountChanged"}, {"SetFallbackKeysChanged", "FallbackKeysChanged"}} {
				var got []string
				for _, m := range pr {
					fn := r.Fn("internal.(*DeviceKeyData)." + m)
					if fn == nil {
						return
					}
					s := ""
					fnInstrs(fn, func(in ssa.Instruction) {
						if cl := asCall(in); cl != nil {
							for _, a := range cl.Args {
								if k, ok := a.(*ssa.Const); ok && k.Value != nil {
									s += callArgStyle + k.Value.String()
								}
							}
						}
					})
					got = append(got, s)
				}
				r.Ob(rule, "bit "+pr[1])
				if got[0] != "" && got[1] != "" && got[0] != got[1] {
					r.Bad(rule, pr[1], "", "what is marked as changed is not what is found to have changed")
				}
				bits = append(bits, got[1])
			}
			if bits[0] != "" && bits[0] == bits[1] {
				r.Bad(rule, "FallbackKeysChanged", "", "changed fallback keys and key counts are not told apart")
			}
		}
		// sending
		p.withOpaque(names{"internal.(*DeviceKeyData).FallbackKeysChanged", "internal.(*DeviceKeyData).OTKCountChanged"}, func() {
			c := p.chooser()
			const dd = "sync3/extensions.(E2EEFetcher).DeviceData("
			data := func(pa, f string) bool {
				return strings.HasPrefix(pa, dd) && (strings.HasSuffix(pa, ")."+f) || strings.HasSuffix(pa, ").DeviceKeyData."+f) || strings.HasSuffix(pa, ").DeviceListChanges."+f))
			}
			isNil := func(f string) CondGuard {
				return func(cd Cond) bool {
					b, ok := cd.V.(*ssa.BinOp)
					if !ok || cd.Pol != (b.Op == token.EQL) {
						return false
					}
					v := b.X
					if isNilConst(v) {
						v = b.Y
					} else if !isNilConst(b.Y) {
						return false
					}
					pa := c.Path(v, cd.E)
					return f == "" && strings.HasPrefix(pa, dd) && strings.HasSuffix(pa, ")") || f != "" && data(pa, f)
				}
			}
			notInitial := func(cd Cond) bool { return !cd.Pol && strings.HasSuffix(c.Path(cd.V, cd.E), ".IsInitial") }
			unchanged := func(m string) CondGuard {
				return func(cd Cond) bool {
					cl, ok := cd.V.(*ssa.Call)
					return ok && !cd.Pol && callName(&cl.Call) == "internal.(*DeviceKeyData)."+m
				}
			}
			emptyList := func(f string) CondGuard {
				return func(cd Cond) bool {
					return c.emptyOf(cd, func(v ssa.Value, e *Env) bool {
						any := false
						for pa := range c.Paths(v, e) {
							if data(pa, f) {
								any = true
							} else if pa != "nil" && pa != "zero" && !strings.HasPrefix(pa, "slice@") && !strings.HasPrefix(pa, "*ssa.") {
								return false
							}
						}
						return any
					})
				}
			}
			pi := nE2EE + "ProcessInitial"
			type w struct {
				field  string
				reason CondGuard
			}
			for _, x := range []w{
				{"OTKCounts", anyCond(isNil("OTKCounts"), notInitial)}, {"OTKCounts", anyCond(isNil("OTKCounts"), unchanged("OTKCountChanged"))},
				{"FallbackKeyTypes", anyCond(isNil("FallbackKeyTypes"), notInitial)}, {"FallbackKeyTypes", anyCond(isNil("FallbackKeyTypes"), unchanged("FallbackKeysChanged"))},
				{"DeviceLists", emptyList("DeviceListChanged")}, {"DeviceLists", emptyList("DeviceListLeft")},
			} {
				x := x
				r.forwards(c, rule, pi, x.field, x.field+" may be missing from the response", nil, anyCond(isNil(""), x.reason), func(in ssa.Instruction, e *Env) bool {
					if !fieldStore("sync3/extensions.E2EEResponse", x.field)(in) {
						return false
					}
					pa := c.Path(in.(*ssa.Store).Val, e)
					return x.field == "DeviceLists" || pa == "" || data(pa, x.field)
				})
				r.forwards(c, rule, pi, x.field+" sent", x.field+" may be missing from the response", nil, anyCond(isNil(""), x.reason), func(in ssa.Instruction, e *Env) bool {
					return fieldStore("sync3/extensions.Response", "E2EE")(in)
				})
			}
			if fn := p.Funcs[pi]; fn != nil {
				for _, e := range p.contexts(fn) {
					fnInstrs(e.fn, func(in ssa.Instruction) {
						for f, from := range map[string]string{"Changed": "DeviceListChanged", "Left": "DeviceListLeft"} {
							if !fieldStore("sync3/extensions.E2EEDeviceList", f)(in) {
								continue
							}
							r.Ob(rule, siteName(in)+" "+f)
							for pa := range c.Paths(in.(*ssa.Store).Val, e) {
								if strings.HasPrefix(pa, dd) && !data(pa, from) {
									r.Bad(rule, siteName(in), r.at(in), "the users whose devices "+strings.ToLower(f)+" are not those ("+pa+")")
								}
							}
						}
						if calls(in, names{"sync3/extensions.(E2EEFetcher).DeviceData"}) {
							r.Ob(rule, siteName(in))
							a := asCall(in).Args
							if pa := c.Path(a[len(a)-1], e); !strings.HasSuffix(pa, ".IsInitial") || strings.HasPrefix(pa, "!") {
								r.Bad(rule, siteName(in), r.at(in), "what is sent may be marked as such by the wrong requests ("+pa+")")
							}
						}
					})
				}
			}
			r.forwards(c, rule, nE2EE+"AppendLive", "live", "changed encryption data may not be sent", nil, func(cd Cond) bool {
				if t, ok := asserts(cd); ok && t == "sync3/caches.DeviceDataUpdate" {
					return !cd.Pol
				}
				cl, ok := cd.V.(*ssa.Call)
				return ok && cd.Pol && callName(&cl.Call) == "sync3/extensions.(*E2EEResponse).HasData"
			}, callTo(c, pi, "$0", "", "$2", "$3"))
		})
		// the poller's copy follows what was stored
		p.withOpaque(names{}, func() {
			c := p.chooser()
			fn := r.Fn("sync2.(*poller).parseE2EEData")
			if fn == nil {
				return
			}
			e := &Env{fn: fn}
			for _, e2 := range p.contexts(fn) {
				fnInstrs(e2.fn, func(in ssa.Instruction) {
					if !calls(in, names{"sync2.(V2DataReceiver).OnE2EEData"}) {
						return
					}
					r.Ob(rule, siteName(in)+" failure")
					ok := func(cd Cond) bool { return c.failed("sync2.(V2DataReceiver).OnE2EEData(")(Cond{cd.V, !cd.Pol, cd.E}) }
					k := c.guard(ok, e2)
					seen := map[*ssa.BasicBlock]bool{}
					var walk func(b *ssa.BasicBlock, i int)
					walk = func(b *ssa.BasicBlock, i int) {
						for _, x := range b.Instrs[i:] {
							if fieldStore("sync2.poller", "otkCounts", "fallbackKeyTypes")(x) {
								r.Bad(rule, siteName(x), r.at(x), "keys are taken to be stored although storing them failed")
								return
							}
						}
						for _, s := range b.Succs {
							if !seen[s] && !k.cuts(b, s, nil, 0) {
								seen[s] = true
								walk(s, 0)
							}
						}
					}
					walk(in.Block(), indexOf(in)+1)
					// what is stored
					r.Ob(rule, siteName(in)+" counts")
					a := asCall(in).Args
					for _, ch := range c.Of(a[3], nil, e2) {
						switch {
						case ch.Path == "$2.DeviceListsOTKCount":
						case ch.Path == "nil" || ch.Path == "zero":
							if !ch.When(p.sameCounts(c)) {
								r.Bad(rule, siteName(in), r.at(in), "changed key counts may not be stored")
							}
						default:
							r.Bad(rule, siteName(in), r.at(in), "the key counts stored are not those received ("+ch.Path+")")
						}
					}
					for _, ch := range c.Of(a[4], nil, e2) {
						if ch.Path != "$2.DeviceUnusedFallbackKeyTypes" && ch.Path != "nil" && ch.Path != "zero" && !strings.HasPrefix(ch.Path, "slice@") {
							r.Bad(rule, siteName(in), r.at(in), "the fallback key types stored are not those received ("+ch.Path+")")
						}
					}
				})
			}
			_ = e
		})
		p.withOpaque(p.pkgFuncs("state"), func() {
			c := p.chooser()
			r.forwards(c, rule, "sync2/handler2.(*Handler).OnE2EEData", "handler", "encryption data which was received may not be stored", nil, nil, func(in ssa.Instruction, e *Env) bool {
				cl := asCall(in)
				if cl == nil {
					return false
				}
				for _, a := range cl.Args {
					mc, ok := a.(*ssa.MakeClosure)
					if !ok {
						continue
					}
					g, _ := mc.Fn.(*ssa.Function)
					if g == nil || len(g.Blocks) == 0 {
						continue
					}
					ne := &Env{up: e, fn: g, site: in, d: e.d + 1}
					f := p.fwd(c, nil, nil, func(in ssa.Instruction, e *Env) bool {
						if !callTo(c, nDevData+"Upsert", "", "$2", "$3", "", "$6")(in, e) {
							return false
						}
						a := asCall(in).Args
						for i, name := range []string{"OTKCounts", "FallbackKeyTypes"} {
							for _, ch := range c.Of(a[3], []string{name}, e) {
								if ch.Path != []string{"$4", "$5"}[i] {
									return false
								}
							}
						}
						return true
					})
					if f.must(ne) == nil {
						f2 := p.fwd(c, nil, c.failed("state."), callTo(c, "sync2.(*DeviceDataTicker).Remember", ""))
						return f2.must(ne) == nil
					}
				}
				return false
			})
			// told in bulk
			r.forwards(c, rule, "sync2.(*DeviceDataTicker).Remember", "remembered", "changed encryption data may not be announced", nil, nil, callTo(c, "sync.(*Map).Store", "$0.notifyMap", "$1"))
			r.forwards(c, rule, "sync2.(*DeviceDataTicker).emitUpdate", "announced", "changed encryption data may not be announced", nil, func(cd Cond) bool {
				return c.emptyOf(cd, func(v ssa.Value, e *Env) bool { _, ok := v.Type().Underlying().(*types.Map); return ok })
			}, func(in ssa.Instruction, e *Env) bool {
				cl := asCall(in)
				return cl != nil && !cl.IsInvoke() && c.Path(cl.Value, e) == "$0.fn"
			})
			if fn := r.Fn("sync2.(*DeviceDataTicker).emitUpdate"); fn != nil {
				for _, e := range p.closureEnvs(fn) {
					if e.up == nil {
						continue
					}
					isRange := calls(e.site, names{"sync.(*Map).Range"})
					if !isRange {
						continue
					}
					r.Ob(rule, "all remembered")
					f := p.fwd(c, nil, nil, func(in ssa.Instruction, e *Env) bool { _, ok := in.(*ssa.MapUpdate); return ok })
					if bad := f.must(e); bad != nil {
						r.Bad(rule, "emitUpdate", r.at(bad), "a device with changed data may not be announced")
					}
					fnInstrs(e.fn, func(in ssa.Instruction) {
						if ret, ok := in.(*ssa.Return); ok && len(ret.Results) == 1 {
							if b, isC := boolConst(ret.Results[0]); !isC || !b {
								r.Bad(rule, "emitUpdate", r.at(in), "devices with changed data may not all be announced")
							}
						}
					})
				}
			}
			r.forwards(c, rule, "sync2.(*DeviceDataTicker).Remember", "without a ticker", "changed encryption data may not be announced", nil, func(cd Cond) bool { return c.isNot(cd, "$0.ticker", "nil") },
				callTo(c, "sync2.(*DeviceDataTicker).emitUpdate", "$0"))
			r.forwards(c, rule, "sync2/handler2.(*Handler).OnBulkDeviceDataUpdate", "notified", "changed encryption data may not be announced", nil, nil, callTo(c, "pubsub.(Notifier).Notify", "", "", "$1"))
		})
		r.Floor(rule, 30)
	})
}

const callArgStyle = "#"

// sameCounts: reasons why key counts need not be stored: none were received, or each is equal to the one before.
func (p *Prog) sameCounts(c *chooser) CondGuard {
	const got = "$2.DeviceListsOTKCount"
	equal := func(cd Cond) bool {
		b, ok := cd.V.(*ssa.BinOp)
		if !ok || b.Op != token.EQL && b.Op != token.NEQ {
			return false
		}
		x, y := c.Path(b.X, cd.E), c.Path(b.Y, cd.E)
		if x != got+"[]" {
			x, y = y, x
		}
		return x == got+"[]" && y == "$0.otkCounts[]" && cd.Pol == (b.Op == token.EQL)
	}
	return func(cd Cond) bool {
		if c.emptyLen(cd, func(pa string) bool { return pa == got }) || c.is(cd, got, "nil") || c.is(cd, "$0.otkCounts", "nil") {
			return true
		}
		if cl, ok := cd.V.(*ssa.Call); ok && cd.Pol && len(cl.Call.Args) == 2 && (callName(&cl.Call) == "reflect.DeepEqual" || callName(&cl.Call) == "maps.Equal") {
			x, y := c.Path(cl.Call.Args[0], cd.E), c.Path(cl.Call.Args[1], cd.E)
			return x == got && y == "$0.otkCounts" || y == got && x == "$0.otkCounts"
		}
		ex, ok := cd.V.(*ssa.Extract)
		if !ok || ex.Index != 0 || cd.Pol {
			return false
		}
		nx, ok := ex.Tuple.(*ssa.Next)
		if !ok {
			return false
		}
		rg, ok := nx.Iter.(*ssa.Range)
		if !ok || c.Path(rg.X, cd.E) != got {
			return false
		}
		return !c.skips(nx.Block(), cd.E, func(ssa.Instruction) bool { return false }, equal)
	}
}
