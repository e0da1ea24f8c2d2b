static std::string js(const std::string& s)
{
    std::string r = "\"";
    for (char c : s) {
        if (c == '"' || c == '\\')
            r += '\\', r += c;
        else if (c == '\n')
            r += "\\n";
        else if ((unsigned char) c < 32)
            r += ' ';
        else
            r += c;
    }
    return r + "\"";
}
int main(int argc, char** argv)
{
    cl::ParseCommandLineOptions(argc, argv);
    LLVMContext ctx;
    SMDiagnostic err;
    auto m = parseIRFile(optIn, err, ctx);
    if (!m) {
        err.print("own", errs());
        return 2;
    }
    S.opShl = OP_LLVM + Instruction::Shl;
    std::set<Function*> rel;
    auto rec = prepare(*m, optReleasers ? &rel : nullptr);
    DataLayout dl = m->getDataLayout();
    DL            = &dl;
    if (!optDump.empty()) {
        std::error_code ec;
        raw_fd_ostream o(optDump, ec);
        m->print(o, nullptr);
    }
    Env::Factory ef;
    EF = &ef;
    Engine e(*m);
    e.rec = rec;
    for (auto* f : rel)
        if (rec.count(f))
            e.releasers.insert(f);
    e.run(optOnly);
    std::string out = "{\"functions\":[";
    bool first = true;
    for (auto& p : e.stats) {
        auto& t = p.second;
        if (!first)
            out += ",";
        first = false;
        out += "{\"name\":" + js(isDriver(*p.first) ? p.first->getName().str() : shortName(p.first->getName().str())) +
               ",\"driver\":" + (isDriver(*p.first) ? "true" : "false");
        auto num = [&](const char* n, size_t v) { out += std::string(",\"") + n + "\":" + std::to_string(v); };
        num("states", t.states);
        num("exits", t.exits);
        num("unwinds", t.unwinds);
        num("events", t.events);
        num("allocs", t.allocs);
        num("frees", t.frees);
        num("stores", t.stores);
        num("guarded", t.guarded);
        num("incs", t.incs);
        num("decs", t.decs);
        num("ctors", t.ctors);
        num("dtors", t.dtors);
        num("loops", t.loops);
        num("tainted", t.tainted);
        bool un = t.unresolved || (e.sums.count(p.first) && e.sums[p.first].unresolved);
        out += std::string(",\"unresolved\":") + (un ? "true" : "false");
        out += ",\"taints\":[";
        bool f2 = true;
        for (auto& x : t.taints) {
            out += (f2 ? "" : ",") + js(x);
            f2 = false;
        }
        out += "]}";
    }
    out += "],\"violations\":[";
    first = true;
    for (auto& p : e.viols) {
        auto& v = p.second;
        out += std::string(first ? "" : ",") + "{\"rule\":" + js(v.rule) + ",\"msg\":" + js(v.msg) +
               ",\"fn\":" + js(v.fn) + ",\"loc\":" + js(v.loc) + ",\"trace\":" + js(v.trace) + "}";
        first = false;
    }
    auto list = [&](const std::set<std::string>& x) {
        std::string r = "[";
        for (auto& y : x)
            r += (r.size() > 1 ? "," : "") + js(y);
        return r + "]";
    };
    out += "],\"alloc_shapes\":" + list(e.allocShapes) + ",\"free_shapes\":" + list(e.freeShapes) + "}\n";
    if (optOut == "-")
        outs() << out;
    else {
        std::error_code ec;
        raw_fd_ostream o(optOut, ec);
        o << out;
    }
    return 0;
}
