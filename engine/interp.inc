// ------------------------------------------------------------------ state helpers
static std::map<std::pair<u32, unsigned>, u32> varIds;
static std::vector<u32> varWidths;
static u32 varId(u32 order, unsigned w) {
    auto it = varIds.find({order, w});
    if (it != varIds.end()) return it->second;
    u32 id = varWidths.size();
    varWidths.push_back(w); S->varW.push_back(w);
    varIds[{order, w}] = id;
    return id;
}
static const std::vector<u64>* curModelOwner = nullptr;
static u64 curModelStamp = 0;
struct Kill {};          // the current state ends
static State* cur = nullptr;
static void useModel(State& s) { P.setModel(&s.model); }
static u64 evalU(E e) { return (u64)P.eval(e); }

static void addConstraint(State& s, E c) {
    if (c->op == O_CONST) return;
    if (c->op == O_AND && c->w == 1) { addConstraint(s, c->a); addConstraint(s, c->b); return; }
    const auto& vs = c->vars->v;
    if (vs.size() == 1 && varWidths[vs[0]] <= 8) {
        const Dom& d = S->satset(c);
        Dom nd = (*s.dom)[vs[0]] & d;
        if (nd == (*s.dom)[vs[0]]) return;
        if (s.dom.use_count() > 1) s.dom = std::make_shared<std::vector<Dom>>(*s.dom);
        (*s.dom)[vs[0]] = nd;
    } else for (u32 v : vs) s.multi[v] = 1;
    s.pc.push_back(c);
}
static void sliceFor(State& s, E c, std::vector<E>& out) {
    // constraints transitively sharing variables with c
    static std::vector<uint8_t> in;
    in.assign(varWidths.size(), 0);
    for (u32 v : c->vars->v) in[v] = 1;
    std::vector<uint8_t> used(s.pc.size(), 0);
    bool ch = true;
    while (ch) {
        ch = false;
        for (size_t i = 0; i < s.pc.size(); i++) if (!used[i]) {
            bool hit = false;
            for (u32 v : s.pc[i]->vars->v) if (in[v]) { hit = true; break; }
            if (hit) {
                used[i] = 1; out.push_back(s.pc[i]);
                for (u32 v : s.pc[i]->vars->v) if (!in[v]) { in[v] = 1; ch = true; }
            }
        }
    }
}
static void incomplete(const std::string& why) { nIncomplete++; incompleteWhy[why]++; }
typedef std::vector<std::pair<u32, u64>> Delta;
// is pc && c satisfiable?  on success delta updates the model
static bool feasible(State& s, E c, Delta& delta, bool force = false) {
    if (c->op == O_CONST) return c->k != 0;
    const auto& vs = c->vars->v;
    if (vs.size() == 1 && varWidths[vs[0]] <= 8) {
        u32 v = vs[0];
        Dom d = (*s.dom)[v] & S->satset(c);
        if (!force) {
            if (d.none()) { S->st.domainHits++; return false; }
            if (!s.multi[v]) { S->st.domainHits++; unsigned x = d._Find_first(); delta.push_back({v, x}); return true; }
        }
    }
    std::vector<E> cs;
    sliceFor(s, c, cs);
    cs.push_back(c);
    int r = S->check(cs, &delta);
    if (r < 0) { incomplete("solver gave up (rlimit)"); return false; }
    return r == 1;
}
// 1 / -1 if the domain of the only variable of c decides it, 0 otherwise
static int knownCond(State& s, E c) {
    const auto& vs = c->vars->v;
    if (vs.size() != 1 || varWidths[vs[0]] > 8) return 0;
    const Dom& d = (*s.dom)[vs[0]]; const Dom& t = S->satset(c);
    Dom x = d & t;
    if (x == d) return 1;
    return x.none() ? -1 : 0;
}
static void applyDelta(State& s, const Delta& d) { for (auto& p : d) { if (s.model.size() <= p.first) s.model.resize(p.first + 1, 0); s.model[p.first] = p.second; } }
static std::vector<std::string> stackStr(State& s);
static std::map<std::string, u64> forkProf;
static State* cloneState(State& s) {
    nForks++;
    static const bool prof = getenv("PSISYM_FORKPROF") != nullptr;
    if (prof) { std::vector<std::string> st = stackStr(s); std::string k; for (size_t i = 0; i < st.size() && i < 6; i++) k += "\n      " + st[i]; forkProf[k]++; }
    return new State(s);
}

static std::string locStr(State& s) {
    if (s.st.empty()) return "?";
    std::string r;
    for (int i = (int)s.st.size() - 1, n = 0; i >= 0 && n < 1; i--, n++) {
        Frame* f = s.st[i].p;
        const Instruction* I = f->pc < (int)f->f->code.size() ? f->f->code[f->pc].I : nullptr;
        std::string line;
        if (I && I->getDebugLoc()) { auto* l = I->getDebugLoc().get(); line = l->getFilename().str() + ":" + std::to_string(l->getLine()); }
        r = demangle(f->f->name).substr(0, 120) + (line.empty() ? "" : " @ " + line);
    }
    return r;
}
static std::vector<std::string> stackStr(State& s) {
    std::vector<std::string> r;
    for (int i = (int)s.st.size() - 1; i >= 0 && r.size() < 14; i--) {
        Frame* f = s.st[i].p;
        const Instruction* I = f->pc < (int)f->f->code.size() ? f->f->code[f->pc].I : nullptr;
        std::string line;
        if (I && I->getDebugLoc()) { auto* l = I->getDebugLoc().get(); line = l->getFilename().str() + ":" + std::to_string(l->getLine()); auto* ia = l->getInlinedAt(); int k = 0; while (ia && k++ < 3) { line += " <- " + ia->getFilename().str() + ":" + std::to_string(ia->getLine()); ia = ia->getInlinedAt(); } }
        r.push_back(demangle(f->f->name).substr(0, 160) + " @ " + line);
    }
    return r;
}
static void reportError(State& s, const std::string& kind, const std::string& msg, const Delta* delta = nullptr) {
    ErrRec e; e.kind = kind; e.msg = msg; e.loc = locStr(s);
    std::string key = kind + "|" + msg + "|" + (kind == "check" ? std::string() : e.loc);
    if (errCount[key]++ >= optMaxErr) return;
    std::vector<u64> m = s.model;
    if (delta) for (auto& p : *delta) { if (m.size() <= p.first) m.resize(p.first + 1, 0); m[p.first] = p.second; }
    for (size_t i = 0; i < s.vars.size(); i++) { u32 v = s.vars[i]; e.vals.push_back(v < m.size() ? m[v] & mask64(varWidths[v]) : 0); e.ws.push_back(varWidths[v]); e.names.push_back(s.varNames[i]); }
    e.stack = stackStr(s);
    e.notes = s.notes;
    errors.push_back(e);
    if (verbose) { fprintf(stderr, "ERROR %s: %s at %s\n", kind.c_str(), msg.c_str(), e.loc.c_str()); for (auto& x : e.stack) fprintf(stderr, "    %s\n", x.c_str()); }
}
[[noreturn]] static void errKill(State& s, const std::string& kind, const std::string& msg) { reportError(s, kind, msg); nErrPaths++; throw Kill(); }
[[noreturn]] static void unsup(const std::string& why) { throw Unsupported{why}; }

static u64 concretize(State& s, const Val& v, unsigned w) {
    if (!v.e) return v.c;
    u64 k = evalU(v.e);
    E eq = P.eq(v.e, P.cst(k, w));
    if (eq->op != O_CONST) {
        Delta d;
        if (feasible(s, P.bnot(eq), d)) {
            State* t = cloneState(s);
            addConstraint(*t, P.bnot(eq)); applyDelta(*t, d);
            work.push_back(t);
            addConstraint(s, eq);
        }
    }
    return k;
}
// decide a symbolic condition; the other feasible side re-executes the current instruction
static bool decide(State& s, E c) {
    if (c->op == O_CONST) return c->k != 0;
    bool v = evalU(c);
    E mine = v ? c : P.bnot(c), other = v ? P.bnot(c) : c;
    Delta d;
    if (feasible(s, other, d)) {
        State* t = cloneState(s);
        addConstraint(*t, other); applyDelta(*t, d);
        work.push_back(t);
        addConstraint(s, mine);
    }
    return v;
}

// ------------------------------------------------------------------ memory access
static u64 newObj(State& s, u64 size, Kind k, u32 id) {
    MemObj* o = new MemObj();
    o->size = size; o->kind = k;
    o->d.assign(size, k == K_GLOBAL ? 0 : 0xAA);
    s.mem.slot(id) = ObjRef(o);
    return addrOf(id);
}
static u64 heapAlloc(State& s, u64 size, Kind k) {
    if (s.nextHeap >= STACK_ID0) unsup("heap exhausted");
    s.heapBytes += size;
    return newObj(s, size, k, s.nextHeap++);
}
static std::string hexs(u64 v) { char b[32]; snprintf(b, sizeof b, "0x%llx", (unsigned long long)v); return b; }
// resolves an access; returns object id, offset; symbolic offset in soff if needed
static u32 resolve(State& s, const Val& a, u64 n, bool write, u64& off, E& soff) {
    soff = nullptr;
    if (!a.e) {
        u32 id = idOf(a.c);
        MemObj* o = s.mem.get(id);
        off = a.c - addrOf(id);
        if (!o) {
            if (a.c < 0x10000) errKill(s, "memory", std::string(write ? "write" : "read") + " through null pointer");
            errKill(s, "memory", std::string(write ? "write to" : "read of") + " freed or unmapped memory");
        }
        if (off > o->size || o->size - off < n) errKill(s, "memory", std::string("out-of-bounds ") + (write ? "write" : "read"));
        if (write && o->ro) errKill(s, "memory", "write to constant");
        return id;
    }
    u64 a0 = evalU(a.e);
    u32 id = idOf(a0);
    MemObj* o = s.mem.get(id);
    if (!o) {
        reportError(s, "memory", std::string(write ? "write" : "read") + (a0 < 0x10000 ? " through null pointer" : " of freed or unmapped memory") + " (symbolic address)");
        E other = P.ne(P.extract(a.e, 32, 32), P.cst(id, 32));
        Delta d;
        if (feasible(s, other, d)) { addConstraint(s, other); applyDelta(s, d); useModel(s); return resolve(s, a, n, write, off, soff); }
        nErrPaths++; throw Kill();
    }
    if (write && o->ro) errKill(s, "memory", "write to constant");
    E offE = P.bin(O_SUB, a.e, P.cst(addrOf(id), 64));
    E ok = o->size < n ? P.F() : P.bin(O_ULE, offE, P.cst(o->size - n, 64));
    nMemQ++;
    if (!evalU(ok)) {
        reportError(s, "memory", std::string("out-of-bounds ") + (write ? "write" : "read") + " (symbolic offset)");
        Delta d;
        if (feasible(s, ok, d)) { addConstraint(s, ok); applyDelta(s, d); useModel(s); }
        else {
            E other = P.ne(P.extract(a.e, 32, 32), P.cst(id, 32)); d.clear();
            if (feasible(s, other, d)) { addConstraint(s, other); applyDelta(s, d); useModel(s); return resolve(s, a, n, write, off, soff); }
            nErrPaths++; throw Kill();
        }
    } else {
        Delta d;
        E nok = P.bnot(ok);
        if (feasible(s, nok, d)) {
            State* t = cloneState(s);
            addConstraint(*t, nok); applyDelta(*t, d);
            work.push_back(t);
            addConstraint(s, ok);
        }
    }
    soff = offE;
    return id;
}
static Val loadAt(MemObj* o, u64 off, unsigned w) {
    u64 n = (w + 7) / 8;
    bool sym = false;
    if (!o->s.empty()) for (u64 i = 0; i < n; i++) if (o->s[off + i]) { sym = true; break; }
    if (!sym) {
        if (w <= 64) { u64 v = 0; memcpy(&v, &o->d[off], n); return cv(v & mask64(w)); }
        u128 v = 0; memcpy(&v, &o->d[off], n); return Val{0, P.cst(v, w)};
    }
    E r = nullptr;
    E b0 = o->s[off];
    if (n > 1 && b0 && b0->op == O_EXTRACT && b0->k == 0 && b0->a->w == 8 * n) {   // a value read back as it was stored
        bool whole = true;
        for (u64 i = 1; i < n && whole; i++) { E b = o->s[off + i]; whole = b && b->op == O_EXTRACT && b->a == b0->a && (u64)b->k == 8 * i; }
        if (whole) return mkv(w < n * 8 ? P.extract(b0->a, 0, w) : b0->a);
    }
    for (u64 i = 0; i < n; i++) {
        E b = o->s[off + i] ? o->s[off + i] : P.cst(o->d[off + i], 8);
        if (b->op == O_EXTRACT) b = P.extract(b->a, (unsigned)b->k, 8);
        r = r ? P.bin(O_CONCAT, b, r) : b;
    }
    if (w < n * 8) r = P.extract(r, 0, w);
    return mkv(r);
}
static void storeAt(MemObj* o, u64 off, const Val& v, unsigned w) {
    u64 n = (w + 7) / 8;
    if (!v.e || v.e->op == O_CONST) {
        u128 k = v.e ? v.e->k : v.c;
        memcpy(&o->d[off], &k, n);
        if (!o->s.empty()) for (u64 i = 0; i < n; i++) o->s[off + i] = nullptr;
        return;
    }
    if (o->s.empty()) o->s.assign(o->size, nullptr);
    E e = w < n * 8 ? P.zext(v.e, n * 8) : v.e;
    for (u64 i = 0; i < n; i++) {
        E b = P.extract(e, 8 * i, 8);
        if (b->op != O_CONST && n > 1 && (e->op == O_ADD || e->op == O_SUB || e->op == O_MUL || e->op == O_ITE || e->op == O_AND || e->op == O_OR || e->op == O_XOR)) b = P.rawExtract(e, 8 * i, 8);
        if (b->op == O_CONST) { o->d[off + i] = (uint8_t)b->k; o->s[off + i] = nullptr; }
        else o->s[off + i] = b;
    }
}
static E buildTable(E idx, std::vector<std::pair<u128, E>>& t, size_t lo, size_t hi) {
    // t sorted by key; runs of equal values merged already; value for keys in [t[i].first, t[i+1].first)
    if (hi - lo == 1) return t[lo].second;
    size_t m = (lo + hi) / 2;
    return P.ite(P.bin(O_ULT, idx, P.cst(t[m].first, idx->w)), buildTable(idx, t, lo, m), buildTable(idx, t, m, hi));
}
static Val readSym(State& s, const Val& addr, MemObj* o, E soff, unsigned w) {
    u64 n = (w + 7) / 8;
    const auto& vs = soff->vars->v;
    if (vs.size() == 1 && varWidths[vs[0]] <= 8) {
        u32 v = vs[0]; E ve = P.var(v, varWidths[v]);
        Dom d = (*s.dom)[v];
        std::vector<u64> tmp(v + 1, 0);
        std::vector<std::pair<u128, E>> t;
        const std::vector<u64>* old = P.model;
        unsigned N = 1u << varWidths[v];
        for (unsigned i = 0; i < N; i++) if (d[i]) {
            tmp[v] = i; P.setModel(&tmp);
            u64 off = evalU(soff);
            if (off > o->size || o->size - off < n) continue;
            E val = ex(loadAt(o, off, w), w);
            if (t.empty() || t.back().second != val) t.push_back({i, val});
        }
        P.setModel(old);
        if (t.empty()) unsup("symbolic read without values");
        return mkv(buildTable(ve, t, 0, t.size()));
    }
    if (o->size <= 512 && w <= 64) {
        std::vector<std::pair<u128, E>> t;
        // alignment: offsets that are multiples of n when provable by construction
        bool al = n > 1 && P.extract(soff, 0, n == 8 ? 3 : n == 4 ? 2 : 1)->op == O_CONST && P.extract(soff, 0, n == 8 ? 3 : n == 4 ? 2 : 1)->k == 0 && (n == 2 || n == 4 || n == 8);
        for (u64 off = 0; off + n <= o->size; off += al ? n : 1) {
            E val = ex(loadAt(o, off, w), w);
            if (t.empty() || t.back().second != val) t.push_back({off, val});
        }
        return mkv(buildTable(soff, t, 0, t.size()));
    }
    u64 a = concretize(s, addr, 64);
    u32 id = idOf(a);
    return loadAt(s.mem.get(id), a - addrOf(id), w);
}
// the only condition that an address depends on (a pointer selected by a comparison), if it is built that way
static bool onlyCondition(E e, E& c, unsigned depth = 0) {
    if (e->op == O_CONST) return true;
    if (depth > 8) return false;
    if (e->w == 1) { if (c && c != e) return false; c = e; return true; }
    switch (e->op) {
    case O_ADD: case O_SUB: case O_OR: case O_AND: case O_SHL: case O_CONCAT: return onlyCondition(e->a, c, depth + 1) && onlyCondition(e->b, c, depth + 1);
    case O_ZEXT: case O_SEXT: case O_EXTRACT: return onlyCondition(e->a, c, depth + 1);
    case O_ITE: return onlyCondition(e->a, c, depth + 1) && onlyCondition(e->b, c, depth + 1) && onlyCondition(e->c, c, depth + 1);
    default: return false;
    }
}
static Val splitPointer(State& s, const Val& a) {
    E c = nullptr;
    if (!a.e) return a;
    if (!onlyCondition(a.e, c) || !c) {
        // selected by several conditions: one path per address (an index computed from one byte stays symbolic)
        if (a.e->op == O_CONST || a.e->vars->v.size() <= 1) return a;
        return cv(concretize(s, a, 64));
    }
    decide(s, c);
    return cv(evalU(a.e));   // a function of c alone, which is decided now
}
static Val loadMem(State& s, const Val& a0, unsigned w) {
    u64 off; E so;
    Val a = w == 64 ? splitPointer(s, a0) : a0;
    u32 id = resolve(s, a, (w + 7) / 8, false, off, so);
    MemObj* o = s.mem.get(id);
    if (!so) return loadAt(o, off, w);
    return readSym(s, a, o, so, w);
}
static void storeMem(State& s, const Val& a0, const Val& v, unsigned w) {
    u64 off; E so;
    Val a = splitPointer(s, a0);
    u32 id = resolve(s, a, (w + 7) / 8, true, off, so);
    if (so) {
        MemObj* o = s.mem.get(id);
        u64 n = (w + 7) / 8;
        if (o->size <= 64 && n == 1) {
            MemObj* ow = s.mem.own(id);
            E nv = w < 8 ? P.zext(ex(v, w), 8) : ex(v, w);
            for (u64 k = 0; k < ow->size; k++) {
                E old = ex(loadAt(ow, k, 8), 8);
                storeAt(ow, k, mkv(P.ite(P.eq(so, P.cst(k, 64)), nv, old)), 8);
            }
            return;
        }
        u64 c = concretize(s, a, 64);
        off = c - addrOf(id);
    }
    storeAt(s.mem.own(id), off, v, w);
}
static u64 rd(State& s, u64 a, unsigned w) {
    Val v = loadMem(s, cv(a), w);
    if (v.e) unsup("symbolic runtime structure");
    return v.c;
}
static std::string rdStr(State& s, u64 a) {
    std::string r;
    for (int i = 0; i < 400; i++) { Val v = loadMem(s, cv(a + i), 8); char c = v.e ? '?' : (char)v.c; if (!v.e && !c) break; r += c; }
    return r;
}

// ------------------------------------------------------------------ RTTI
static std::string rttiOf(State& s, u64 ti) { u64 vp = rd(s, ti, 64); auto it = rttiKind.find(vp - 16); return it == rttiKind.end() ? std::string("?") : it->second; }
// collect addresses of subobjects of type dst inside an object of type ti at addr
static void subobjs(State& s, u64 ti, u64 addr, u64 dst, bool haveObj, std::vector<u64>& out, bool pub) {
    if (ti == dst) { if (pub && std::find(out.begin(), out.end(), addr) == out.end()) out.push_back(addr); return; }
    std::string k = rttiOf(s, ti);
    if (k == "si") subobjs(s, rd(s, ti + 16, 64), addr, dst, haveObj, out, pub);
    else if (k == "vmi") {
        u64 cnt = rd(s, ti + 20, 32);
        for (u64 i = 0; i < cnt; i++) {
            u64 b = rd(s, ti + 24 + 16 * i, 64); i64 of = (i64)rd(s, ti + 32 + 16 * i, 64);
            u64 ba = addr;
            if (of & 1) { if (!haveObj) unsup("virtual base in catch"); u64 vp = rd(s, addr, 64); ba = addr + (i64)rd(s, vp + (of >> 8), 64); }
            else ba = addr + (of >> 8);
            subobjs(s, b, ba, dst, haveObj, out, pub && (of & 2));
        }
    }
}
static bool catchMatch(State& s, u64 thrown, u64 obj, u64 cat, u64& adj) {
    adj = obj;
    if (cat == 0 || cat == thrown) return true;
    std::string k = rttiOf(s, thrown);
    if (k == "si" || k == "vmi") {
        std::vector<u64> o;
        subobjs(s, thrown, obj, cat, true, o, true);
        if (o.size() == 1) { adj = o[0]; return true; }
    }
    return false;
}
static u64 typeId(u64 ti) { auto it = typeids.find(ti); if (it != typeids.end()) return it->second; return typeids[ti] = typeidNext++; }

// ------------------------------------------------------------------ frames
static void enterEdge(State& s, Frame* f, const Edge* e) {
    if (!e->copies.empty()) {
        if (e->copies.size() == 1) { int o = e->copies[0].second; f->r[e->copies[0].first] = o >= 0 ? f->r[o] : f->f->consts[-o - 1]; }
        else {
            static std::vector<Val> tmp;
            tmp.clear();
            for (auto& c : e->copies) tmp.push_back(c.second >= 0 ? f->r[c.second] : f->f->consts[-c.second - 1]);
            for (size_t i = 0; i < tmp.size(); i++) f->r[e->copies[i].first] = tmp[i];
        }
    }
    f->pc = f->f->bbStart[e->bb];
}
static void pushFrame(State& s, Func* f, const std::vector<Val>& args, const std::vector<Val>* varargs = nullptr, const std::vector<uint8_t>* vaw = nullptr) {
    Frame* fr = new Frame();
    fr->f = f; fr->pc = f->bbStart[0]; fr->r.assign(f->nslots, cv(0));
    fr->stackTop = s.stackNext;
    if (args.size() < f->argSlots.size()) unsup("call with too few arguments: " + f->name);
    for (size_t i = 0; i < f->argSlots.size(); i++) fr->r[f->argSlots[i]] = args[i];
    if (varargs) { fr->varargs = *varargs; fr->vaw = *vaw; }
    s.st.push_back(FrameRef(fr));
    f->calls++;
    if (s.st.size() > 20000) errKill(s, "stack-overflow", "call depth exceeds 20000");
}
static void popFrame(State& s) {
    Frame* f = s.st.back().p;
    for (u32 id : f->allocas) s.mem.slot(id) = ObjRef();
    s.stackNext = f->stackTop;
    s.st.pop_back();
}
static void finishPath(State& s) {
    nDone++;
    if (optSamples <= 0) return;
    u64 h = nDone * 0x9E3779B97F4A7C15ull; h ^= h >> 29; h *= 0xBF58476D1CE4E5B9ull; h ^= h >> 32;
    u64 k = h % nDone;
    if ((int)samples.size() >= optSamples && k >= (u64)optSamples) return;
    SampleRec r;
    useModel(s);
    for (size_t i = 0; i < s.vars.size(); i++) { u32 v = s.vars[i]; r.vals.push_back(v < s.model.size() ? s.model[v] & mask64(varWidths[v]) : 0); r.ws.push_back(varWidths[v]); r.names.push_back(s.varNames[i]); }
    for (auto& o : s.obs) r.obs.push_back({o.first, o.second.e ? evalU(o.second.e) : o.second.c});
    if ((int)samples.size() < optSamples) samples.push_back(r);
    else samples[k] = r;
}
// unwinding: the exception `ex` propagates out of the instruction currently executing in the top frame
static void unwind(State& s, u64 exc, bool skipTop) {
    ExcInfo& xi = s.exc[exc];
    bool first = skipTop;
    while (true) {
        if (first) { popFrame(s); first = false; }
        if (s.st.empty()) {
            std::string nm = "?";
            try { nm = demangle("_ZTI" + rdStr(s, rd(s, xi.tinfo + 8, 64))); } catch (Unsupported&) {}
            reportError(s, "uncaught-exception", nm); nErrPaths++; throw Kill();
        }
        Frame* f = s.st.back().own();
        const Inst& in = f->f->code[f->pc];
        if (in.op == I_CALL) {
            const CallAux* ca = (const CallAux*)in.ptr;
            if (ca->unwind) {
                // look at the landing pad
                int pc = f->f->bbStart[ca->unwind->bb];
                const Inst& lp = f->f->code[pc];
                if (lp.op != I_LPAD) unsup("landing pad");
                const LpadAux* la = (const LpadAux*)lp.ptr;
                u64 sel = 0, adj = exc; bool hit = false;
                for (auto& c : la->clauses) {
                    if (c.first == 0) { if (catchMatch(s, xi.tinfo, exc, c.second[0], adj)) { sel = typeId(c.second[0]); hit = true; break; } }
                    else {
                        bool allowed = false; u64 a2;
                        for (u64 t : c.second) if (catchMatch(s, xi.tinfo, exc, t, a2)) allowed = true;
                        if (!allowed) { sel = (u64)-1 & 0xffffffff; hit = true; break; }
                    }
                }
                if (hit || la->cleanup) {
                    if (hit) xi.adjusted = adj;
                    enterEdge(s, f, ca->unwind);
                    s.pendingExc = exc; s.pendingSel = sel;
                    return;
                }
            }
        }
        popFrame(s);
    }
}

// ------------------------------------------------------------------ floating point (concrete only)
static long double getF(const Val& v, int fk) {
    u128 k = v.e ? v.e->k : v.c;
    if (v.e && v.e->op != O_CONST) unsup("symbolic floating point");
    if (fk == 1) { float f; u32 b = (u32)k; memcpy(&f, &b, 4); return f; }
    if (fk == 2) { double f; u64 b = (u64)k; memcpy(&f, &b, 8); return f; }
    long double l = 0; memcpy(&l, &k, 10); return l;
}
static Val putF(long double v, int fk) {
    if (fk == 1) { float f = (float)v; u32 b; memcpy(&b, &f, 4); return cv(b); }
    if (fk == 2) { double f = (double)v; u64 b; memcpy(&b, &f, 8); return cv(b); }
    u128 k = 0; memcpy(&k, &v, 10); return Val{0, P.cst(k, 80)};
}
static Val fbin(unsigned opc, const Val& a, const Val& b, int fk) {
    long double x = getF(a, fk), y = getF(b, fk);
    if (fk == 1) { float p = x, q = y; switch (opc) { case Instruction::FAdd: return putF(p + q, 1); case Instruction::FSub: return putF(p - q, 1); case Instruction::FMul: return putF(p * q, 1); case Instruction::FDiv: return putF(p / q, 1); default: return putF(fmodf(p, q), 1); } }
    if (fk == 2) { double p = x, q = y; switch (opc) { case Instruction::FAdd: return putF(p + q, 2); case Instruction::FSub: return putF(p - q, 2); case Instruction::FMul: return putF(p * q, 2); case Instruction::FDiv: return putF(p / q, 2); default: return putF(fmod(p, q), 2); } }
    switch (opc) { case Instruction::FAdd: return putF(x + y, 3); case Instruction::FSub: return putF(x - y, 3); case Instruction::FMul: return putF(x * y, 3); case Instruction::FDiv: return putF(x / y, 3); default: return putF(fmodl(x, y), 3); }
}
static bool fcmp(unsigned p, long double a, long double b) {
    bool un = std::isnan(a) || std::isnan(b);
    switch (p) {
    case CmpInst::FCMP_FALSE: return false; case CmpInst::FCMP_OEQ: return !un && a == b; case CmpInst::FCMP_OGT: return !un && a > b; case CmpInst::FCMP_OGE: return !un && a >= b;
    case CmpInst::FCMP_OLT: return !un && a < b; case CmpInst::FCMP_OLE: return !un && a <= b; case CmpInst::FCMP_ONE: return !un && a != b; case CmpInst::FCMP_ORD: return !un; case CmpInst::FCMP_UNO: return un;
    case CmpInst::FCMP_UEQ: return un || a == b; case CmpInst::FCMP_UGT: return un || a > b; case CmpInst::FCMP_UGE: return un || a >= b; case CmpInst::FCMP_ULT: return un || a < b; case CmpInst::FCMP_ULE: return un || a <= b; case CmpInst::FCMP_UNE: return un || a != b; default: return true;
    }
}

// ------------------------------------------------------------------ instruction execution
static inline Val G(Frame* f, int i) { return i >= 0 ? f->r[i] : f->f->consts[-i - 1]; }
static Val binop(State& s, Op op, const Val& a, const Val& b, unsigned w) {
    if (!a.e && !b.e) {
        u64 x = a.c, y = b.c, m = mask64(w);
        switch (op) {
        case O_ADD: return cv((x + y) & m); case O_SUB: return cv((x - y) & m); case O_MUL: return cv((x * y) & m);
        case O_AND: return cv(x & y); case O_OR: return cv(x | y); case O_XOR: return cv(x ^ y);
        case O_SHL: return cv(y >= w ? 0 : (x << y) & m); case O_LSHR: return cv(y >= w ? 0 : x >> y);
        case O_ASHR: return cv((u64)(sx(x, w) >> (y >= w ? w - 1 : y)) & m);
        case O_UDIV: if (!y) errKill(s, "arith", "division by zero"); return cv(x / y);
        case O_UREM: if (!y) errKill(s, "arith", "division by zero"); return cv(x % y);
        case O_SDIV: if (!y) errKill(s, "arith", "division by zero"); if (y == m) return cv((0 - x) & m); return cv((u64)(sx(x, w) / sx(y, w)) & m);
        case O_SREM: if (!y) errKill(s, "arith", "division by zero"); if (y == m) return cv(0); return cv((u64)(sx(x, w) % sx(y, w)) & m);
        default: break;
        }
    }
    if (op == O_UDIV || op == O_UREM || op == O_SDIV || op == O_SREM) {
        E z = P.eq(ex(b, w), P.cst(0, w));
        if (decide(s, z)) errKill(s, "arith", "division by zero");
    }
    return mkv(P.bin(op, ex(a, w), ex(b, w)));
}
static Val icmp(unsigned p, const Val& a, const Val& b, unsigned w) {
    if (!a.e && !b.e) {
        u64 x = a.c, y = b.c;
        switch (p) {
        case CmpInst::ICMP_EQ: return cv(x == y); case CmpInst::ICMP_NE: return cv(x != y); case CmpInst::ICMP_UGT: return cv(x > y); case CmpInst::ICMP_UGE: return cv(x >= y);
        case CmpInst::ICMP_ULT: return cv(x < y); case CmpInst::ICMP_ULE: return cv(x <= y); case CmpInst::ICMP_SGT: return cv(sx(x, w) > sx(y, w)); case CmpInst::ICMP_SGE: return cv(sx(x, w) >= sx(y, w));
        case CmpInst::ICMP_SLT: return cv(sx(x, w) < sx(y, w)); default: return cv(sx(x, w) <= sx(y, w));
        }
    }
    E x = ex(a, w), y = ex(b, w);
    switch (p) {
    case CmpInst::ICMP_EQ: return mkv(P.eq(x, y)); case CmpInst::ICMP_NE: return mkv(P.ne(x, y)); case CmpInst::ICMP_UGT: return mkv(P.bin(O_ULT, y, x)); case CmpInst::ICMP_UGE: return mkv(P.bin(O_ULE, y, x));
    case CmpInst::ICMP_ULT: return mkv(P.bin(O_ULT, x, y)); case CmpInst::ICMP_ULE: return mkv(P.bin(O_ULE, x, y)); case CmpInst::ICMP_SGT: return mkv(P.bin(O_SLT, y, x)); case CmpInst::ICMP_SGE: return mkv(P.bin(O_SLE, y, x));
    case CmpInst::ICMP_SLT: return mkv(P.bin(O_SLT, x, y)); default: return mkv(P.bin(O_SLE, x, y));
    }
}
static Val castv(const Val& a, unsigned w, unsigned w0, bool sg) {
    if (!a.e) { if (w <= 64) return cv((sg ? (u64)sx(a.c, w0) : a.c) & mask64(w)); u128 k = sg ? (u128)(i128)sx(a.c, w0) : (u128)a.c; return Val{0, P.cst(k, w)}; }
    return mkv(w < w0 ? P.extract(a.e, 0, w) : sg ? P.sext(a.e, w) : P.zext(a.e, w));
}
static void copyMem(State& s, u64 d, u64 sr, u64 n) {
    if (!n) return;
    u64 o1, o2; E e1, e2;
    u32 i2 = resolve(s, cv(sr), n, false, o2, e2);
    u32 i1 = resolve(s, cv(d), n, true, o1, e1);
    MemObj* dst = s.mem.own(i1); MemObj* src = s.mem.get(i2);
    memmove(&dst->d[o1], &src->d[o2], n);
    if (!src->s.empty()) {
        if (dst->s.empty()) dst->s.assign(dst->size, nullptr);
        memmove(&dst->s[o1], &src->s[o2], n * sizeof(E));
    } else if (!dst->s.empty()) for (u64 i = 0; i < n; i++) dst->s[o1 + i] = nullptr;
}
static void setMem(State& s, u64 d, const Val& v, u64 n) {
    if (!n) return;
    u64 o1; E e1;
    u32 i1 = resolve(s, cv(d), n, true, o1, e1);
    MemObj* dst = s.mem.own(i1);
    if (!v.e) { memset(&dst->d[o1], (int)v.c, n); if (!dst->s.empty()) for (u64 i = 0; i < n; i++) dst->s[o1 + i] = nullptr; }
    else for (u64 i = 0; i < n; i++) storeAt(dst, o1 + i, v, 8);
}
static u32 freshVar(State& s, unsigned w, const std::string& name) {
    u32 v = varId(s.vars.size(), w);
    s.vars.push_back(v); s.varNames.push_back(name);
    if (s.model.size() <= v) s.model.resize(v + 1, 0);
    if (s.dom->size() <= v || true) {
        if (s.dom.use_count() > 1) s.dom = std::make_shared<std::vector<Dom>>(*s.dom);
        if (s.dom->size() <= v) s.dom->resize(v + 1);
        Dom d; if (w <= 8) for (unsigned i = 0; i < (1u << w); i++) d.set(i);
        (*s.dom)[v] = d;
    }
    if (s.multi.size() <= v) s.multi.resize(v + 1, 0);
    s.multi[v] = 0;
    s.model[v] = 0;
    useModel(s);
    return v;
}
static const int RET_CALL = 1, RET_DONE = 0, RET_JUMP = 2; // frame pushed / result set / control already transferred
static void setRet(State& s, const Inst& in, const Val& v, int i = 0) { if (in.dst >= 0) s.st.back().own()->r[in.dst + i] = v; }
static u64 pad16(u64 n) { return n; }

static void throwBadAlloc(State& s);
static int doIntrinsic(State& s, const Inst& in, const CallAux* ca, std::vector<Val>& a) {
    Frame* f = s.st.back().p; (void)f;
    unsigned w = ca->argw.empty() ? 0 : ca->argw[0];
    int n = ca->nret;
    switch (ca->intr) {
    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: {
        u64 len = concretize(s, a[2], ca->argw[2]); u64 d = concretize(s, a[0], 64); u64 sr = concretize(s, a[1], 64);
        copyMem(s, d, sr, len); return RET_DONE;
    }
    case Intrinsic::memset: case Intrinsic::memset_inline: {
        u64 len = concretize(s, a[2], ca->argw[2]); u64 d = concretize(s, a[0], 64);
        setMem(s, d, a[1], len); return RET_DONE;
    }
    case Intrinsic::umax: case Intrinsic::umin: case Intrinsic::smax: case Intrinsic::smin:
        for (int i = 0; i < n; i++) {
            unsigned ww = ca->retws[i]; Val x = a[i], y = a[i + n];
            unsigned p = ca->intr == Intrinsic::umax ? CmpInst::ICMP_UGT : ca->intr == Intrinsic::umin ? CmpInst::ICMP_ULT : ca->intr == Intrinsic::smax ? CmpInst::ICMP_SGT : CmpInst::ICMP_SLT;
            Val c = icmp(p, x, y, ww);
            setRet(s, in, c.e ? mkv(P.ite(c.e, ex(x, ww), ex(y, ww))) : c.c ? x : y, i);
        }
        return RET_DONE;
    case Intrinsic::abs: {
        Val c = icmp(CmpInst::ICMP_SLT, a[0], cv(0), w); Val ng = binop(s, O_SUB, cv(0), a[0], w);
        setRet(s, in, c.e ? mkv(P.ite(c.e, ex(ng, w), ex(a[0], w))) : c.c ? ng : a[0]); return RET_DONE;
    }
    case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::umul_with_overflow:
    case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow: {
        bool sg = ca->intr == Intrinsic::sadd_with_overflow || ca->intr == Intrinsic::ssub_with_overflow || ca->intr == Intrinsic::smul_with_overflow;
        Op op = (ca->intr == Intrinsic::uadd_with_overflow || ca->intr == Intrinsic::sadd_with_overflow) ? O_ADD : (ca->intr == Intrinsic::usub_with_overflow || ca->intr == Intrinsic::ssub_with_overflow) ? O_SUB : O_MUL;
        if (w > 64) unsup("wide overflow intrinsic");
        E x = ex(a[0], w), y = ex(a[1], w);
        unsigned W = op == O_MUL ? 2 * w : w + 1;
        E X = sg ? P.sext(x, W) : P.zext(x, W), Y = sg ? P.sext(y, W) : P.zext(y, W);
        E R = P.bin(op, X, Y), r = P.bin(op, x, y);
        E o = P.ne(R, sg ? P.sext(r, W) : P.zext(r, W));
        setRet(s, in, mkv(r), 0); setRet(s, in, mkv(o), 1); return RET_DONE;
    }
    case Intrinsic::usub_sat: { Val c = icmp(CmpInst::ICMP_ULT, a[0], a[1], w); Val r = binop(s, O_SUB, a[0], a[1], w); setRet(s, in, c.e ? mkv(P.ite(c.e, P.cst(0, w), ex(r, w))) : c.c ? cv(0) : r); return RET_DONE; }
    case Intrinsic::uadd_sat: { Val r = binop(s, O_ADD, a[0], a[1], w); Val c = icmp(CmpInst::ICMP_ULT, r, a[0], w); setRet(s, in, c.e ? mkv(P.ite(c.e, P.cst(~(u128)0, w), ex(r, w))) : c.c ? cv(mask64(w)) : r); return RET_DONE; }
    case Intrinsic::ctpop: {
        E x = ex(a[0], w), r = P.cst(0, w);
        for (unsigned i = 0; i < w; i++) r = P.bin(O_ADD, r, P.zext(P.extract(x, i, 1), w));
        setRet(s, in, mkv(r)); return RET_DONE;
    }
    case Intrinsic::ctlz: {
        E x = ex(a[0], w), r = P.cst(w, w);
        for (unsigned i = 0; i < w; i++) r = P.ite(P.extract(x, i, 1), P.cst(w - 1 - i, w), r);
        setRet(s, in, mkv(r)); return RET_DONE;
    }
    case Intrinsic::cttz: {
        E x = ex(a[0], w), r = P.cst(w, w);
        for (int i = (int)w - 1; i >= 0; i--) r = P.ite(P.extract(x, i, 1), P.cst(i, w), r);
        setRet(s, in, mkv(r)); return RET_DONE;
    }
    case Intrinsic::bswap: {
        E x = ex(a[0], w), r = nullptr;
        for (unsigned i = 0; i < w / 8; i++) { E b = P.extract(x, 8 * i, 8); r = r ? P.bin(O_CONCAT, r, b) : b; }
        setRet(s, in, mkv(r)); return RET_DONE;
    }
    case Intrinsic::fshl: case Intrinsic::fshr: {
        u64 sh = concretize(s, a[2], w) % w;
        E x = ex(a[0], w), y = ex(a[1], w);
        if (sh == 0) { setRet(s, in, ca->intr == Intrinsic::fshl ? a[0] : a[1]); return RET_DONE; }
        unsigned k = ca->intr == Intrinsic::fshl ? sh : w - sh;
        setRet(s, in, mkv(P.bin(O_OR, P.bin(O_SHL, x, P.cst(k, w)), P.bin(O_LSHR, y, P.cst(w - k, w))))); return RET_DONE;
    }
    case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::threadlocal_address: case Intrinsic::ssa_copy: case Intrinsic::ptr_annotation:
        setRet(s, in, a[0]); return RET_DONE;
    case Intrinsic::is_constant: setRet(s, in, cv(0)); return RET_DONE;
    case Intrinsic::objectsize: { u64 mn = a[1].c; setRet(s, in, cv(mn ? 0 : mask64(ca->retws[0]))); return RET_DONE; }
    case Intrinsic::eh_typeid_for: setRet(s, in, cv(typeId(a[0].c))); return RET_DONE;
    case Intrinsic::stacksave: setRet(s, in, cv(0)); return RET_DONE;
    case Intrinsic::stackrestore: return RET_DONE;
    case Intrinsic::trap: case Intrinsic::ubsantrap: case Intrinsic::debugtrap: errKill(s, "trap", "llvm.trap executed");
    case Intrinsic::vastart: {
        Frame* fr = s.st.back().own();
        u64 sz = 0; for (auto ww : fr->vaw) sz += ww > 64 ? 32 : 8;
        u64 area = heapAlloc(s, sz + 8, K_OTHER);
        MemObj* o = s.mem.own(idOf(area));
        u64 off = 0;
        for (size_t i = 0; i < fr->varargs.size(); i++) {
            if (fr->vaw[i] > 64) { off = (off + 15) & ~15ull; storeAt(o, off, fr->varargs[i], fr->vaw[i]); off += 16; }
            else { Val v = fr->varargs[i]; if (v.e) v = mkv(P.zext(v.e, 64)); storeAt(o, off, v, 64); off += 8; }
        }
        u64 p = concretize(s, a[0], 64);
        storeMem(s, cv(p), cv(48), 32); storeMem(s, cv(p + 4), cv(304), 32); storeMem(s, cv(p + 8), cv(area), 64); storeMem(s, cv(p + 16), cv(0), 64);
        return RET_DONE;
    }
    case Intrinsic::vacopy: { u64 d = concretize(s, a[0], 64), sr = concretize(s, a[1], 64); copyMem(s, d, sr, 24); return RET_DONE; }
    case Intrinsic::floor: case Intrinsic::ceil: case Intrinsic::fabs: case Intrinsic::sqrt: case Intrinsic::trunc: case Intrinsic::rint: case Intrinsic::round: case Intrinsic::nearbyint: case Intrinsic::log: case Intrinsic::exp: case Intrinsic::log2: case Intrinsic::log10: {
        int fk = w == 32 ? 1 : w == 64 ? 2 : 3; long double x = getF(a[0], fk), r = 0;
        switch (ca->intr) { case Intrinsic::floor: r = floorl(x); break; case Intrinsic::ceil: r = ceill(x); break; case Intrinsic::fabs: r = fabsl(x); break; case Intrinsic::sqrt: r = fk == 2 ? (long double)sqrt((double)x) : sqrtl(x); break; case Intrinsic::trunc: r = truncl(x); break; case Intrinsic::log: r = fk == 2 ? (long double)log((double)x) : logl(x); break; case Intrinsic::exp: r = fk == 2 ? (long double)exp((double)x) : expl(x); break; case Intrinsic::log2: r = log2((double)x); break; case Intrinsic::log10: r = log10((double)x); break; default: r = roundl(x); if (ca->intr != Intrinsic::round) r = rintl(x); }
        setRet(s, in, putF(r, fk)); return RET_DONE;
    }
    case Intrinsic::fmuladd: case Intrinsic::fma: { int fk = w == 32 ? 1 : w == 64 ? 2 : 3; Val m = fbin(Instruction::FMul, a[0], a[1], fk); setRet(s, in, fbin(Instruction::FAdd, m, a[2], fk)); return RET_DONE; }
    case Intrinsic::maxnum: case Intrinsic::minnum: { int fk = w == 32 ? 1 : w == 64 ? 2 : 3; long double x = getF(a[0], fk), y = getF(a[1], fk); setRet(s, in, putF(ca->intr == Intrinsic::maxnum ? fmaxl(x, y) : fminl(x, y), fk)); return RET_DONE; }
    case Intrinsic::copysign: { int fk = w == 32 ? 1 : w == 64 ? 2 : 3; setRet(s, in, putF(copysignl(getF(a[0], fk), getF(a[1], fk)), fk)); return RET_DONE; }
    case Intrinsic::vector_reduce_add: case Intrinsic::vector_reduce_or: case Intrinsic::vector_reduce_and: case Intrinsic::vector_reduce_xor: case Intrinsic::vector_reduce_mul: {
        Op op = ca->intr == Intrinsic::vector_reduce_add ? O_ADD : ca->intr == Intrinsic::vector_reduce_or ? O_OR : ca->intr == Intrinsic::vector_reduce_and ? O_AND : ca->intr == Intrinsic::vector_reduce_xor ? O_XOR : O_MUL;
        Val r = a[0];
        for (size_t i = 1; i < a.size(); i++) r = binop(s, op, r, a[i], w);
        setRet(s, in, r); return RET_DONE;
    }
    case Intrinsic::get_rounding: setRet(s, in, cv(1)); return RET_DONE;
    case Intrinsic::load_relative: unsup("relative lookup table");   // the address space is wider than 32 bits; the code is compiled without -fpic, which makes no such tables
    default: unsup("intrinsic " + ca->callee->getName().str());
    }
}
static void freeObj(State& s, const Val& p, Kind want, const char* what) {
    u64 a = concretize(s, p, 64);
    if (!a) return;
    u32 id = idOf(a);
    MemObj* o = s.mem.get(id);
    if (!o || a != addrOf(id)) errKill(s, "memory", std::string("invalid or double ") + what);
    if (o->kind != K_MALLOC && o->kind != K_NEW && o->kind != K_NEWA) errKill(s, "memory", std::string(what) + " of non-heap memory");
    (void)want;
    s.mem.slot(id) = ObjRef();
}
static int doBuiltin(State& s, const Inst& in, const CallAux* ca, std::vector<Val>& a) {
    switch ((Builtin)ca->builtin) {
    case B_MALLOC: { u64 n = concretize(s, a[0], 64); setRet(s, in, cv(n > (1u << 28) ? 0 : heapAlloc(s, n, K_MALLOC))); return RET_DONE; }
    case B_CALLOC: { u64 n = concretize(s, a[0], 64), m = concretize(s, a[1], 64); u64 p = heapAlloc(s, n * m, K_MALLOC); memset(s.mem.own(idOf(p))->d.data(), 0, n * m); setRet(s, in, cv(p)); return RET_DONE; }
    case B_REALLOC: {
        u64 n = concretize(s, a[1], 64); u64 p = concretize(s, a[0], 64);
        if (!p) { setRet(s, in, cv(heapAlloc(s, n, K_MALLOC))); return RET_DONE; }
        MemObj* o = s.mem.get(idOf(p));
        if (!o || p != addrOf(idOf(p)) || (o->kind != K_MALLOC && o->kind != K_NEW && o->kind != K_NEWA)) errKill(s, "memory", "invalid realloc");
        u64 q = heapAlloc(s, n, K_MALLOC);
        copyMem(s, q, p, std::min(n, o->size));
        s.mem.slot(idOf(p)) = ObjRef();
        setRet(s, in, cv(q)); return RET_DONE;
    }
    case B_FREE: freeObj(s, a[0], K_MALLOC, "free"); return RET_DONE;
    case B_DELETE: freeObj(s, a[0], K_NEW, "delete"); return RET_DONE;
    case B_DELETEA: freeObj(s, a[0], K_NEWA, "delete[]"); return RET_DONE;
    case B_NEW: case B_NEWA: case B_ALIGNEDNEW: {
        u64 n = concretize(s, a[0], 64);
        if (n > (1u << 28)) { throwBadAlloc(s); return RET_CALL; }
        setRet(s, in, cv(heapAlloc(s, n, ca->builtin == B_NEWA ? K_NEWA : K_NEW))); return RET_DONE;
    }
    case B_MEMCMP: {
        u64 n = concretize(s, a[2], 64); u64 p = concretize(s, a[0], 64), q = concretize(s, a[1], 64);
        E r = P.cst(0, 32);
        if (n) {
            u64 o1, o2; E e;
            u32 i1 = resolve(s, cv(p), n, false, o1, e), i2 = resolve(s, cv(q), n, false, o2, e);
            MemObj *x = s.mem.get(i1), *y = s.mem.get(i2);
            for (u64 i = n; i-- > 0;) {
                E u = ex(loadAt(x, o1 + i, 8), 8), v = ex(loadAt(y, o2 + i, 8), 8);
                r = P.ite(P.eq(u, v), r, P.ite(P.bin(O_ULT, u, v), P.cst((u128)-1, 32), P.cst(1, 32)));
            }
        }
        setRet(s, in, mkv(r)); return RET_DONE;
    }
    case B_STRLEN: {
        u64 p = concretize(s, a[0], 64); u64 i = 0;
        while (true) {
            Val v = loadMem(s, cv(p + i), 8);
            if (!v.e) { if (!v.c) break; }
            else if (decide(s, P.eq(v.e, P.cst(0, 8)))) break;
            i++;
        }
        setRet(s, in, cv(i)); return RET_DONE;
    }
    case B_MEMCPY: case B_MEMMOVE: { u64 n = concretize(s, a[2], 64), d = concretize(s, a[0], 64), q = concretize(s, a[1], 64); copyMem(s, d, q, n); setRet(s, in, cv(d)); return RET_DONE; }
    case B_MEMSET: { u64 n = concretize(s, a[2], 64), d = concretize(s, a[0], 64); Val v = a[1]; if (v.e) v = mkv(P.extract(v.e, 0, 8)); else v.c &= 255; setMem(s, d, v, n); setRet(s, in, cv(d)); return RET_DONE; }
    case B_ABORT: errKill(s, "abort", "abort() called");
    case B_ASSERTFAIL: errKill(s, "assert", "assertion failed: " + rdStr(s, a[0].c));
    case B_EXIT: errKill(s, "exit", "exit() called");
    case B_PUREVIRT: errKill(s, "abort", "pure virtual call");
    case B_TERMINATE: errKill(s, "abort", "std::terminate called");
    case B_CALLUNEXP: errKill(s, "abort", "exception specification violated");
    case B_CXA_ALLOC: { u64 n = concretize(s, a[0], 64); setRet(s, in, cv(heapAlloc(s, n ? n : 1, K_MALLOC))); return RET_DONE; }
    case B_CXA_FREE: freeObj(s, a[0], K_MALLOC, "free_exception"); return RET_DONE;
    case B_CXA_THROW: { u64 p = a[0].c; s.exc[p] = ExcInfo{a[1].c, p, 0}; s.uncaught++; unwind(s, p, false); return RET_JUMP; }
    case B_CXA_BEGIN: { u64 p = a[0].c; auto it = s.exc.find(p); if (it == s.exc.end()) unsup("begin_catch of foreign exception"); it->second.handlers++; s.caught.push_back(p); s.uncaught--; setRet(s, in, cv(it->second.adjusted)); return RET_DONE; }
    case B_CXA_GETPTR: { auto it = s.exc.find(a[0].c); if (it == s.exc.end()) unsup("get_exception_ptr"); setRet(s, in, cv(it->second.adjusted)); return RET_DONE; }
    case B_CXA_END: {
        if (s.caught.empty()) unsup("end_catch");
        u64 p = s.caught.back(); s.caught.pop_back();
        auto it = s.exc.find(p);
        if (it != s.exc.end() && it->second.handlers > 0) it->second.handlers--;
        return RET_DONE;
    }
    case B_CXA_RETHROW: { if (s.caught.empty()) errKill(s, "abort", "rethrow without exception"); u64 p = s.caught.back(); s.uncaught++; unwind(s, p, false); return RET_JUMP; }
    case B_UNCAUGHT: setRet(s, in, cv(s.uncaught > 0)); return RET_DONE;
    case B_UNCAUGHTS: setRet(s, in, cv(s.uncaught)); return RET_DONE;
    case B_DYNCAST: {
        u64 p = concretize(s, a[0], 64);
        u64 vp = rd(s, p, 64); i64 off = (i64)rd(s, vp - 16, 64); u64 ti = rd(s, vp - 8, 64);
        std::vector<u64> o;
        subobjs(s, ti, p + off, a[2].c, true, o, true);
        if (o.size() > 1) unsup("ambiguous dynamic_cast");
        setRet(s, in, cv(o.empty() ? 0 : o[0])); return RET_DONE;
    }
    case B_NOP0: if (ca->nret) setRet(s, in, cv(0)); return RET_DONE;
    case B_NOP1: if (ca->nret) setRet(s, in, cv(1)); return RET_DONE;
    case B_SYM: {
        u64 p = concretize(s, a[0], 64), n = concretize(s, a[1], 64); std::string nm = rdStr(s, a[2].c);
        u64 off; E e; if (n) { u32 id = resolve(s, cv(p), n, true, off, e); (void)id; }
        for (u64 i = 0; i < n; i++) { u32 v = freshVar(s, 8, nm + "[" + std::to_string(i) + "]"); storeMem(s, cv(p + i), Val{0, P.var(v, 8)}, 8); }
        return RET_DONE;
    }
    case B_SYMINT: {
        u64 lo = concretize(s, a[0], 64), hi = concretize(s, a[1], 64); std::string nm = rdStr(s, a[2].c);
        u64 r = hi - lo; unsigned w = 1; while (w < 64 && (r >> w)) w++;
        u32 v = freshVar(s, w, nm);
        E ve = P.var(v, w);
        if (r != mask64(w)) addConstraint(s, P.bin(O_ULE, ve, P.cst(r, w)));
        setRet(s, in, mkv(P.bin(O_ADD, P.zext(ve, 64), P.cst(lo, 64)))); return RET_DONE;
    }
    case B_ASSUME: {
        Val c = a[0];
        if (!c.e) { if (!(c.c & 1)) { nAssumeKill++; throw Kill(); } return RET_DONE; }
        E k = c.e->w == 1 ? c.e : P.ne(c.e, P.cst(0, c.e->w));
        if (!evalU(k)) {
            Delta d;
            if (!feasible(s, k, d)) { nAssumeKill++; throw Kill(); }
            applyDelta(s, d); useModel(s);
        }
        addConstraint(s, k);
        return RET_DONE;
    }
    case B_CHECK: {
        std::string msg = rdStr(s, a[1].c);
        nAsserts++; checkCounts[msg]++;
        Val c = a[0];
        if (!c.e) {
            nAssertTrivial++;
            if (!(c.c & 1)) { reportError(s, "check", msg); nErrPaths++; throw Kill(); }
            return RET_DONE;
        }
        E k = c.e->w == 1 ? c.e : P.ne(c.e, P.cst(0, c.e->w));
        Delta d; nAssertQueries++;
        if (!evalU(k)) { reportError(s, "check", msg); if (!feasible(s, k, d)) { nErrPaths++; throw Kill(); } addConstraint(s, k); applyDelta(s, d); useModel(s); return RET_DONE; }
        if (feasible(s, P.bnot(k), d, true)) { reportError(s, "check", msg, &d); addConstraint(s, k); }
        return RET_DONE;
    }
    case B_FAIL: { std::string msg = rdStr(s, a[0].c); nAsserts++; checkCounts[msg]++; reportError(s, "check", msg); nErrPaths++; throw Kill(); }
    case B_REACH: reachMarks[rdStr(s, a[0].c)]++; return RET_DONE;
    case B_NOTE: s.notes.push_back(rdStr(s, a[0].c)); return RET_DONE;
    case B_OBSERVE: { Val v = a[1]; s.obs.push_back({rdStr(s, a[0].c), v}); return RET_DONE; }
    case B_CONCR: { u64 v = concretize(s, a[0], 64); setRet(s, in, cv(v)); return RET_DONE; }
    case B_ISSYM: setRet(s, in, cv(a[0].e != nullptr)); return RET_DONE;
    case B_ITE: { Val c = a[0]; if (!c.e) setRet(s, in, (c.c & 1) ? a[1] : a[2]); else { E k = c.e->w == 1 ? c.e : P.extract(c.e, 0, 1); setRet(s, in, mkv(P.ite(k, ex(a[1], 64), ex(a[2], 64)))); } return RET_DONE; }
    case B_HASH0: for (int i = 0; i < ca->nret; i++) setRet(s, in, cv(0), i); return RET_DONE;
    case B_SINK: return RET_DONE;
    default: unsup("builtin");
    }
}
static Func* badAllocFn = nullptr;
static void throwBadAlloc(State& s) {
    Function* F = M->getFunction("psirt_throw_bad_alloc");
    if (!F) unsup("bad_alloc");
    pushFrame(s, getFunc(F), {});
}
static void doCall(State& s, const Inst& in) {
    const CallAux* ca = (const CallAux*)in.ptr;
    Frame* f = s.st.back().own();
    static std::vector<Val> args;
    args.clear();
    for (int x : ca->args) args.push_back(G(f, x));
    int r = RET_DONE;
    if (ca->intr) { std::vector<Val> a = args; r = doIntrinsic(s, in, ca, a); }
    else if (ca->builtin >= 0) { std::vector<Val> a = args; r = doBuiltin(s, in, ca, a); }
    else {
        Function* F = ca->callee;
        CallAux tmp;
        if (!F) {
            u64 p = concretize(s, G(f, ca->fptr), 64);
            if (idOf(p) != FN_ID) errKill(s, "memory", "call through invalid function pointer");
            u64 ix = (p - addrOf(FN_ID)) / 16;
            if (ix >= fnByIdx.size()) errKill(s, "memory", "call through invalid function pointer");
            F = fnByIdx[ix];
            auto it = builtinTab.find(F->getName().str());
            if (it != builtinTab.end()) { tmp = *ca; tmp.builtin = it->second; std::vector<Val> a = args; r = doBuiltin(s, in, &tmp, a); goto done; }
        }
        if (F->isDeclaration()) unsup("external function " + F->getName().str());
        Func* g = getFunc(F);
        // byval arguments are copied
        std::vector<Val> a = args;
        bool anybv = false;
        for (size_t i = 0; i < ca->argByval.size(); i++) if (ca->argByval[i]) anybv = true;
        std::vector<u32> extra;
        if (anybv) for (size_t i = 0; i < ca->argByval.size(); i++) if (ca->argByval[i]) {
            u64 src = concretize(s, a[i], 64);
            u32 id = s.stackNext++; u64 d = newObj(s, ca->byvalSize[i], K_STACK, id);
            copyMem(s, d, src, ca->byvalSize[i]); a[i] = cv(d); extra.push_back(id);
        }
        if (F->isVarArg()) {
            size_t fixed = g->argSlots.size();
            std::vector<Val> va(a.begin() + fixed, a.end()); std::vector<uint8_t> vw(ca->argw.begin() + fixed, ca->argw.end());
            pushFrame(s, g, a, &va, &vw);
        } else pushFrame(s, g, a);
        if (!extra.empty()) { Frame* nf = s.st.back().own(); nf->allocas = extra; nf->stackTop = extra[0]; }
        return;
    }
done:
    if (r == RET_DONE) {
        Frame* t = s.st.back().own();
        if (ca->normal) enterEdge(s, t, ca->normal); else t->pc++;
    }
}
static void doRet(State& s, const Inst& in) {
    const std::vector<int>* ops = (const std::vector<int>*)in.ptr;
    Frame* f = s.st.back().p;
    Val rv[16]; size_t n = std::min<size_t>(ops->size(), 16);
    for (size_t i = 0; i < n; i++) rv[i] = G(f, (*ops)[i]);
    popFrame(s);
    if (s.st.empty()) return;
    Frame* c = s.st.back().own();
    if (c->pc < 0) return;
    const Inst& ci = c->f->code[c->pc];
    const CallAux* ca = (const CallAux*)ci.ptr;
    if (ci.dst >= 0) for (size_t i = 0; i < n && (int)i < ca->nret; i++) c->r[ci.dst + i] = rv[i];
    if (ca->normal) enterEdge(s, c, ca->normal); else c->pc++;
}
static bool optForkSel = false;
static void branchSym(State& s, E c, const Edge* et, const Edge* ef) {
    nSymBranches++;
    bool v = evalU(c);
    E mine = v ? c : P.bnot(c), other = v ? P.bnot(c) : c;
    Delta d;
    if (feasible(s, other, d)) {
        State* t = cloneState(s);
        addConstraint(*t, other); applyDelta(*t, d);
        enterEdge(*t, t->st.back().own(), v ? ef : et);
        t->depth++;
        work.push_back(t);
        addConstraint(s, mine);
        s.depth++;
    }
    enterEdge(s, s.st.back().own(), v ? et : ef);
}
static u64 deadlineChk = 0;
static bool timeUp() { return nowS() - tStart > optTime; }
struct TimeUp {};

static void runState(State& s) {
    useModel(s);
    while (!s.st.empty()) {
        Frame* f = s.st.back().own();
        const Inst& in = f->f->code[f->pc];
        nInsts++; s.steps++;
        if (in.fnidx >= 0) covCount[in.fnidx]++;
        if ((++deadlineChk & 0xffff) == 0 && timeUp()) throw TimeUp();
        if (s.steps > optSteps) { nStepLimit++; errKill(s, "step-limit", "path exceeds the step bound (possible non-termination)"); }
        switch (in.op) {
        case I_MOV: f->r[in.dst] = G(f, in.a); f->pc++; break;
        case I_BIN: { Val r = binop(s, (Op)in.sub, G(f, in.a), G(f, in.b), in.w); f->r[in.dst] = r; f->pc++; break; }
        case I_CMP: f->r[in.dst] = icmp(in.sub, G(f, in.a), G(f, in.b), in.w); f->pc++; break;
        case I_CAST: f->r[in.dst] = castv(G(f, in.a), in.w, in.w2, in.sub); f->pc++; break;
        case I_SELECT: {
            Val c = G(f, in.c);
            if (!c.e) f->r[in.dst] = c.c ? G(f, in.a) : G(f, in.b);
            else if (int k = knownCond(s, c.e)) f->r[in.dst] = k > 0 ? G(f, in.a) : G(f, in.b);
            else if (optForkSel && in.w > 1) {
                nSymBranches++;
                bool v = evalU(c.e);
                E mine = v ? c.e : P.bnot(c.e), other = v ? P.bnot(c.e) : c.e;
                Val va = G(f, in.a), vb = G(f, in.b); Delta d;
                if (feasible(s, other, d)) {
                    State* t = cloneState(s);
                    addConstraint(*t, other); applyDelta(*t, d);
                    Frame* g = t->st.back().own(); g->r[in.dst] = v ? vb : va; g->pc++;
                    t->depth++; work.push_back(t);
                    addConstraint(s, mine); s.depth++;
                }
                Frame* g = s.st.back().own(); g->r[in.dst] = v ? va : vb; g->pc++;
                break;
            }
            else { E r = P.ite(c.e, ex(G(f, in.a), in.w), ex(G(f, in.b), in.w)); f->r[in.dst] = mkv(r); }
            f->pc++; break;
        }
        case I_PTRADD: { Val a = G(f, in.a); f->r[in.dst] = a.e ? mkv(P.bin(O_ADD, a.e, P.cst(in.imm, 64))) : cv(a.c + in.imm); f->pc++; break; }
        case I_GEP: {
            const GepAux* g = (const GepAux*)in.ptr;
            Val a = G(f, in.a);
            u64 k = g->k; E acc = nullptr;
            for (auto& ix : g->idx) {
                Val v = G(f, ix.first); unsigned w = ix.second.first; u64 sc = ix.second.second;
                if (!v.e) k += (u64)sx(v.c, w) * sc;
                else { E t = P.bin(O_MUL, w < 64 ? P.sext(v.e, 64) : v.e, P.cst(sc, 64)); acc = acc ? P.bin(O_ADD, acc, t) : t; }
            }
            if (!acc && !a.e) f->r[in.dst] = cv(a.c + k);
            else { E r = ex(a, 64); if (acc) r = P.bin(O_ADD, acc, r); r = P.bin(O_ADD, r, P.cst(k, 64)); f->r[in.dst] = mkv(r); }
            f->pc++; break;
        }
        case I_LOAD: { Val a = G(f, in.a); if (in.imm) a = a.e ? mkv(P.bin(O_ADD, a.e, P.cst(in.imm, 64))) : cv(a.c + in.imm); Val r = loadMem(s, a, in.w); s.st.back().own()->r[in.dst] = r; s.st.back().p->pc++; break; }
        case I_STORE: { Val a = G(f, in.b); if (in.imm) a = a.e ? mkv(P.bin(O_ADD, a.e, P.cst(in.imm, 64))) : cv(a.c + in.imm); storeMem(s, a, G(f, in.a), in.w); s.st.back().own()->pc++; break; }
        case I_ALLOCA: {
            u64 n = concretize(s, G(f, in.a), 64);
            f = s.st.back().own();
            u32 id = s.stackNext++; if (id >= FN_ID) unsup("stack exhausted");
            u64 a = newObj(s, n * in.imm, K_STACK, id);
            f->allocas.push_back(id); f->r[in.dst] = cv(a); f->pc++; break;
        }
        case I_CALL: doCall(s, in); break;
        case I_RET: doRet(s, in); break;
        case I_BR: enterEdge(s, f, (const Edge*)in.ptr); break;
        case I_CONDBR: {
            Val c = G(f, in.a);
            if (!c.e) enterEdge(s, f, c.c ? (const Edge*)in.ptr : (const Edge*)in.imm);
            else branchSym(s, c.e, (const Edge*)in.ptr, (const Edge*)in.imm);
            break;
        }
        case I_SWITCH: {
            const SwitchAux* sa = (const SwitchAux*)in.ptr;
            Val v = G(f, in.a);
            if (!v.e) {
                int e = sa->def;
                for (auto& c : sa->cases) if ((u64)c.first == v.c) { e = c.second; break; }
                enterEdge(s, f, &sa->edges[e]);
            } else {
                nSymBranches++;
                std::vector<E> cond(sa->edges.size(), nullptr);
                E any = P.F();
                for (auto& c : sa->cases) { E q = P.eq(v.e, P.cst(c.first, in.w)); cond[c.second] = cond[c.second] ? P.lor(cond[c.second], q) : q; if (c.second != sa->def) any = P.lor(any, q); }
                E dc = P.bnot(any); cond[sa->def] = dc;
                int mine = -1;
                for (size_t i = 0; i < cond.size(); i++) if (cond[i] && evalU(cond[i])) { mine = i; break; }
                bool forked = false;
                for (size_t i = 0; i < cond.size(); i++) if (cond[i] && (int)i != mine) {
                    Delta d;
                    if (feasible(s, cond[i], d)) {
                        State* t = cloneState(s);
                        addConstraint(*t, cond[i]); applyDelta(*t, d);
                        enterEdge(*t, t->st.back().own(), &sa->edges[i]);
                        t->depth++;
                        work.push_back(t); forked = true;
                    }
                }
                if (forked) { addConstraint(s, cond[mine]); s.depth++; }
                enterEdge(s, s.st.back().own(), &sa->edges[mine]);
            }
            break;
        }
        case I_UNREACH: errKill(s, "unreachable", "unreachable code executed");
        case I_RESUME: { Val a = G(f, in.a); unwind(s, a.c, true); break; }
        case I_LPAD: f->r[in.dst] = cv(s.pendingExc); f->r[in.dst + 1] = cv(s.pendingSel); f->pc++; break;
        case I_ATOMICRMW: {
            Val p = G(f, in.b), v = G(f, in.a);
            Val old = loadMem(s, p, in.w); Val nv;
            switch (in.sub) {
            case AtomicRMWInst::Xchg: nv = v; break; case AtomicRMWInst::Add: nv = binop(s, O_ADD, old, v, in.w); break; case AtomicRMWInst::Sub: nv = binop(s, O_SUB, old, v, in.w); break;
            case AtomicRMWInst::And: nv = binop(s, O_AND, old, v, in.w); break; case AtomicRMWInst::Or: nv = binop(s, O_OR, old, v, in.w); break; case AtomicRMWInst::Xor: nv = binop(s, O_XOR, old, v, in.w); break;
            default: unsup("atomicrmw");
            }
            storeMem(s, p, nv, in.w);
            Frame* g = s.st.back().own(); g->r[in.dst] = old; g->pc++; break;
        }
        case I_CMPXCHG: {
            Val p = G(f, in.b); Val old = loadMem(s, p, in.w); Val eq = icmp(CmpInst::ICMP_EQ, old, G(f, in.a), in.w);
            bool t = eq.e ? decide(s, eq.e) : eq.c;
            if (t) storeMem(s, p, G(f, in.c), in.w);
            Frame* g = s.st.back().own(); g->r[in.dst] = old; g->r[in.dst + 1] = cv(t); g->pc++; break;
        }
        case I_FBIN: f->r[in.dst] = fbin((unsigned)in.imm, G(f, in.a), G(f, in.b), in.fk); f->pc++; break;
        case I_FNEG: f->r[in.dst] = putF(-getF(G(f, in.a), in.fk), in.fk); f->pc++; break;
        case I_FCMP: f->r[in.dst] = cv(fcmp(in.sub, getF(G(f, in.a), in.fk), getF(G(f, in.b), in.fk))); f->pc++; break;
        case I_FCAST: {
            Val a = G(f, in.a);
            unsigned op = (unsigned)in.imm;
            if (op == Instruction::UIToFP || op == Instruction::SIToFP) {
                u64 k = concretize(s, a, in.w2);
                f = s.st.back().own();
                f->r[in.dst] = putF(op == Instruction::SIToFP ? (long double)sx(k, in.w2) : (long double)k, in.fk);
            } else if (op == Instruction::FPToSI) f->r[in.dst] = cv((u64)(i64)getF(a, in.sub) & mask64(in.w));
            else if (op == Instruction::FPToUI) f->r[in.dst] = cv((u64)getF(a, in.sub) & mask64(in.w));
            else f->r[in.dst] = putF(getF(a, in.sub), in.fk);
            f->pc++; break;
        }
        case I_INSELT: { // concat hi:lo
            f->r[in.dst] = mkv(P.bin(O_CONCAT, ex(G(f, in.a), in.w), ex(G(f, in.b), in.w2))); f->pc++; break;
        }
        case I_EXTELT: { f->r[in.dst] = mkv(P.extract(ex(G(f, in.a), in.w2), (unsigned)in.imm, in.w)); f->pc++; break; }
        case I_UNSUP: unsup((const char*)in.ptr);
        default: unsup("inst");
        }
    }
    finishPath(s);
}

// ------------------------------------------------------------------ driver
struct Shared { std::atomic<int> active; std::atomic<int> seq; std::atomic<int> stop; };
static Shared* sh;
static std::string jesc(const std::string& x) { std::string r; for (unsigned char c : x) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32 || c >= 127) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; } else r += c; } return r; }
static void writeOut() {
    if (!forkProf.empty()) {   // for development: where paths split
        std::vector<std::pair<u64, std::string>> v; for (auto& p : forkProf) v.push_back({p.second, p.first});
        std::sort(v.rbegin(), v.rend());
        std::string o; for (size_t i = 0; i < v.size() && i < 8; i++) o += "FORKS " + std::to_string(v[i].first) + v[i].second + "\n";
        fputs(o.c_str(), stderr);
    }
    int n = sh->seq.fetch_add(1);
    std::string fn = outFile + "." + std::to_string(n);
    std::ofstream o(fn);
    o << "{";
    auto num = [&](const char* k, double v) { o << "\"" << k << "\":" << std::fixed << v << ","; };
    auto un = [&](const char* k, u64 v) { o << "\"" << k << "\":" << v << ","; };
    un("paths", nDone); un("forks", nForks); un("insts", nInsts); un("assume_killed", nAssumeKill); un("incomplete", nIncomplete); un("step_limit", nStepLimit);
    un("asserts", nAsserts); un("assert_queries", nAssertQueries); un("assert_trivial", nAssertTrivial); un("sym_branches", nSymBranches); un("err_paths", nErrPaths); un("unexplored", nUnexplored); un("mem_checks", nMemQ);
    un("queries", S->st.queries); un("cache_hits", S->st.cacheHits); un("domain_hits", S->st.domainHits); un("sat", S->st.sat); un("unsat", S->st.unsat); un("unknown", S->st.unknown); num("solver_s", S->st.time); num("solver_max_s", S->st.maxTime);
    auto mp = [&](const char* k, std::map<std::string, u64>& m) { o << "\"" << k << "\":{"; bool f = true; for (auto& p : m) { o << (f ? "" : ",") << "\"" << jesc(p.first) << "\":" << p.second; f = false; } o << "},"; };
    mp("why", incompleteWhy); mp("reach", reachMarks); mp("checks", checkCounts);
    o << "\"cov\":[";
    bool f = true;
    for (size_t i = 0; i < covName.size(); i++) if (covCount[i] && covFile[i].find("/usr/") != 0) { o << (f ? "" : ",") << "[\"" << jesc(demangle(covName[i])) << "\",\"" << jesc(covFile[i]) << "\"," << covCount[i] << "]"; f = false; }
    o << "],\"errors\":[";
    f = true;
    for (auto& e : errors) {
        o << (f ? "" : ",") << "{\"kind\":\"" << jesc(e.kind) << "\",\"msg\":\"" << jesc(e.msg) << "\",\"loc\":\"" << jesc(e.loc) << "\",\"vals\":[";
        for (size_t i = 0; i < e.vals.size(); i++) o << (i ? "," : "") << e.vals[i];
        o << "],\"names\":["; for (size_t i = 0; i < e.names.size(); i++) o << (i ? "," : "") << "\"" << jesc(e.names[i]) << "\"";
        o << "],\"stack\":["; for (size_t i = 0; i < e.stack.size(); i++) o << (i ? "," : "") << "\"" << jesc(e.stack[i]) << "\"";
        o << "],\"notes\":["; for (size_t i = 0; i < e.notes.size(); i++) o << (i ? "," : "") << "\"" << jesc(e.notes[i]) << "\"";
        o << "]}"; f = false;
    }
    o << "],\"samples\":[";
    f = true;
    for (auto& e : samples) {
        o << (f ? "" : ",") << "{\"vals\":["; for (size_t i = 0; i < e.vals.size(); i++) o << (i ? "," : "") << e.vals[i];
        o << "],\"names\":["; for (size_t i = 0; i < e.names.size(); i++) o << (i ? "," : "") << "\"" << jesc(e.names[i]) << "\"";
        o << "],\"obs\":["; for (size_t i = 0; i < e.obs.size(); i++) o << (i ? "," : "") << "[\"" << jesc(e.obs[i].first) << "\"," << e.obs[i].second << "]";
        o << "]}"; f = false;
    }
    o << "]}\n";
    o.close();
}
static void resetStats() {
    nDone = nForks = nInsts = nAssumeKill = nIncomplete = nStepLimit = nAsserts = nAssertQueries = nAssertTrivial = nSymBranches = nMemQ = nErrPaths = nUnexplored = 0;
    S->st = SolverStats(); errors.clear(); errCount.clear(); samples.clear(); incompleteWhy.clear(); reachMarks.clear(); checkCounts.clear();
    std::fill(covCount.begin(), covCount.end(), 0);
}
static void mainLoop() {
    std::vector<pid_t> kids;
    double lastFork = nowS();
    bool out = false;
    while (!work.empty() && !out) {
        State* s = work.back(); work.pop_back();
        cur = s;
        try { runState(*s); }
        catch (Kill&) {}
        catch (Unsupported& u) { incomplete("unsupported: " + u.why + " in " + (s->st.empty() ? std::string("?") : demangle(s->st.back().p->f->name).substr(0, 100))); if (verbose) { fprintf(stderr, "unsupported: %s\n", u.why.c_str()); for (auto& x : stackStr(*s)) fprintf(stderr, "    %s\n", x.c_str()); } }
        catch (TimeUp&) { nUnexplored += 1; out = true; }
        delete s;
        if (timeUp()) out = true;
        if (out) { nUnexplored += work.size(); break; }
        if (work.size() >= 2 && optJobs > 1 && sh->active.load() < optJobs && nowS() - lastFork > 0.02) {
            int a = sh->active.load();
            if (a < optJobs && sh->active.compare_exchange_strong(a, a + 1)) {
                lastFork = nowS();
                std::deque<State*> mine, theirs;
                for (size_t i = 0; i < work.size(); i++) (i % 2 ? mine : theirs).push_back(work[i]);
                fflush(stderr);
                pid_t p = fork();
                if (p == 0) { resetStats(); kids.clear(); work = theirs; lastFork = nowS(); optSamples = std::max(4, optSamples / 4); }
                else if (p > 0) { kids.push_back(p); for (State* t : theirs) delete t; work = mine; }
                else sh->active--;
            }
        }
    }
    for (State* s : work) delete s;
    writeOut();
    sh->active--;
    for (pid_t p : kids) { int st; waitpid(p, &st, 0); if (!WIFEXITED(st) || WEXITSTATUS(st)) sh->stop = 1; }
}
static bool isRttiVt(const std::string& n, std::string& k) {
    if (n == "_ZTVN10__cxxabiv117__class_type_infoE") { k = "class"; return true; }
    if (n == "_ZTVN10__cxxabiv120__si_class_type_infoE") { k = "si"; return true; }
    if (n == "_ZTVN10__cxxabiv121__vmi_class_type_infoE") { k = "vmi"; return true; }
    if (n.find("_ZTVN10__cxxabiv1") == 0) { k = "other"; return true; }
    return false;
}
int main(int argc, char** argv) {
    tStart = nowS();
    struct rlimit rl = {1ull << 30, 1ull << 30};
    if (!getenv("PSISYM_REEXEC")) {
        struct rlimit c; getrlimit(RLIMIT_STACK, &c);
        if (c.rlim_max == RLIM_INFINITY || c.rlim_max >= rl.rlim_cur) { rl.rlim_max = c.rlim_max; setrlimit(RLIMIT_STACK, &rl); setenv("PSISYM_REEXEC", "1", 1); execv("/proc/self/exe", argv); }
    }
    std::string bc, entry = "main";
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto nx = [&]() { return std::string(argv[++i]); };
        if (a == "--time") optTime = atof(nx().c_str());
        else if (a == "--steps") optSteps = strtoull(nx().c_str(), 0, 10);
        else if (a == "--jobs") optJobs = atoi(nx().c_str());
        else if (a == "--out") outFile = nx();
        else if (a == "--entry") entry = nx();
        else if (a == "--samples") optSamples = atoi(nx().c_str());
        else if (a == "--maxerr") optMaxErr = atoi(nx().c_str());
        else if (a == "--fork-select") optForkSel = true; // one path per alternative of a select instead of a conditional expression
        else if (a == "--hash0") hashPrefixes.push_back(nx());
        else if (a == "-v") verbose = true;
        else bc = a;
    }
    sh = (Shared*)mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    sh->active = 1; sh->seq = 0; sh->stop = 0;
    SMDiagnostic err;
    M = parseIRFile(bc, err, Ctx);
    if (!M) { err.print("psisym", errs()); return 3; }
    DL = &M->getDataLayout();
    S = new Solver(P);
    State* s = new State();
    s->dom = std::make_shared<std::vector<Dom>>();
    s->stackNext = STACK_ID0;
    // place globals
    std::vector<GlobalVariable*> gs;
    for (auto& G : M->globals()) { u32 id = nextGlobalId++; gaddr[&G] = addrOf(id); gs.push_back(&G); std::string k; if (isRttiVt(G.getName().str(), k)) rttiKind[addrOf(id)] = k; }
    for (auto* G : gs) {
        u64 sz = G->getValueType()->isSized() ? typeSize(G->getValueType()) : 16;
        std::string k;
        if (G->isDeclaration()) sz = std::max<u64>(sz, 512);
        u32 id = idOf(gaddr[G]);
        newObj(*s, sz, K_GLOBAL, id);
        if (G->hasInitializer()) {
            try { initBytes(s->mem.own(id), G->getInitializer(), 0); }
            catch (Unsupported& u) { fprintf(stderr, "psisym: initializer of %s: %s\n", G->getName().str().c_str(), u.why.c_str()); }
        }
        if (G->isConstant() && G->hasInitializer()) s->mem.own(id)->ro = true;
    }
    s->nextHeap = nextGlobalId + 16;
    // run constructors then entry: build a synthetic list
    std::vector<std::pair<u64, Function*>> ctors;
    if (auto* GC = M->getGlobalVariable("llvm.global_ctors")) if (GC->hasInitializer()) if (auto* CA = dyn_cast<ConstantArray>(GC->getInitializer()))
        for (auto& o : CA->operands()) { auto* CS = cast<ConstantStruct>(o); if (auto* F = dyn_cast<Function>(CS->getOperand(1)->stripPointerCasts())) ctors.push_back({cast<ConstantInt>(CS->getOperand(0))->getZExtValue(), F}); }
    std::stable_sort(ctors.begin(), ctors.end(), [](auto& a, auto& b) { return a.first < b.first; });
    Function* Mn = M->getFunction(entry);
    if (!Mn || Mn->isDeclaration()) die("no entry " + entry);
    useModel(*s);
    double t0 = nowS();
    for (auto& c : ctors) {
        Func* f = getFunc(c.second);
        pushFrame(*s, f, {});
        optSamples = -optSamples;
        try { runState(*s); }
        catch (Unsupported& u) { std::string st; for (auto& x : stackStr(*s)) st += "\n    " + x; die("static initialisation needs " + u.why + st); }
        catch (Kill&) { std::string st; for (auto& e : errors) { st += " " + e.kind + ": " + e.msg + " " + e.loc; for (auto& x : e.stack) st += "\n    " + x; } die("static initialisation failed:" + st); }
        catch (TimeUp&) { die("time up in static initialisation"); }
        optSamples = -optSamples;
        if (!work.empty()) die("fork in static initialisation");
    }
    u64 initInsts = nInsts;
    resetStats();
    if (verbose) fprintf(stderr, "psisym: loaded in %.2fs, static init %.2fs, %llu insts\n", t0 - tStart, nowS() - t0, (unsigned long long)initInsts);
    s->steps = 0;
    tStart = nowS(); // exploration budget starts here
    pushFrame(*s, getFunc(Mn), std::vector<Val>(8, cv(0)));
    work.push_back(s);
    mainLoop();
    if (verbose) fprintf(stderr, "psisym: done in %.2fs\n", nowS() - tStart);
    _exit(sh->stop ? 4 : 0);
}
