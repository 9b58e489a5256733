// C22: what is written to a configuration file is what the object holds, and reading a file gives back exactly what was
// written, for all configurable classes, both formats, all ways of calling, several objects in one file.
#include "cfgtree.h"
HUMOTO_INITIALIZE_GLOBAL_LOGGER(std::cout);
using namespace cfg;

namespace
{
    Bridge bridge(mc::Ctx &c) { return c.flip("bridge") ? YAML_ : MSGPACK; }

    void expect(mc::Ctx &c, Bridge b, const Tree &e, const Tree &got, bool subset, const char *key, const std::string &what)
    {
        std::string why;
        bool ok = same(e, got, tolerance(b) == 0.0 ? (subset ? 1e-15 : 0.0) : tolerance(b), subset, why);
        c.check(ok, key, ok ? std::string() : what + ": " + why);
    }

    // the file must hold exactly these sections
    void fileIs(mc::Ctx &c, Bridge b, const File &f, const Tree &root, const char *key, const std::string &what)
    {
        std::string s = f.get();
        Tree got = decode(b, s, &root);
        std::string why;
        bool ok = same(root, got, tolerance(b), false, why);
        c.check(ok, key, ok ? std::string() : what + ": " + why + "\n" + s);
    }
}

// raw file -> object -> file -> object, all classes and all ways of calling
MC_SCENARIO(classes, 16, 3)
{
    int cls = c.range(0, numClasses() - 1, "class");
    Bridge b = bridge(c);
    int wform = c.range(0, 3, "way of writing");
    ObjectPtr x = create(cls);
    int rform = c.range(0, hasConstructor(cls) ? 7 : 5, "way of reading");
    int strict = c.range(-1, 1, "strictness");
    int salt = c.range(0, c.thorough ? 7 : 3, "values");
    int history = c.range(0, 2, "history of the reading object");    // fresh, read before, written before
    bool split = b == MSGPACK ? c.flip("one map per section") : true;

    bool named_r = (rform == 1 || rform == 2 || rform == 4 || rform == 5 || rform == 7), named_w = (wform == 1 || wform == 3);
    std::string rname = named_r ? "Node 1" : x->section();
    std::string wname = named_w ? "other" : x->section();
    if (b == YAML_ && named_r) rname = "Node1";
    Tree values = x->make(salt);
    File in, out;

    if (history > 0)
    {
        File old;
        Tree r;
        r.add(x->section(), x->make(salt + 11));
        old.put(encode(b, r, true));
        c.step("read another file");
        x->read(b, 3, old.path, "", -1);
        if (history == 2) { c.step("write it"); x->write(b, 2, out.path, ""); fileIs(c, b, out, r, "file-written-before", "file written before"); }
    }

    Tree root;
    root.add("Unrelated", create(0)->make(1)).add(rname, values).add("Unrelated2", create(1)->make(2));
    in.put(encode(b, root, split));
    c.step("read " + show(values));
    x->read(b, rform, in.path, rname, strict);
    expect(c, b, values, x->observe(), true, "read", "read from " + in.get());

    c.step("write");
    x->write(b, wform, out.path, wname);
    Tree written;
    written.add(wname, values);
    fileIs(c, b, out, written, "written", "written file");

    ObjectPtr y = create(cls);
    c.step("read back");
    y->read(b, named_w ? 4 : 3, out.path, wname, -1);
    expect(c, b, x->observe(), y->observe(), false, "read-back", "object read from the file which was written");
    File again;
    y->write(b, 3, again.path, wname);
    c.check(again.get() == out.get(), "rewritten", "writing the object which was read gives another file");
    c.state(show(values) + rname);
}

// several objects in one file, written with one writer and read with one or several readers in any order
MC_SCENARIO(several_objects, 16, 4)
{
    Bridge b = bridge(c);
    static const int CLS[] = {0, 4, 7, 11, 5, 21, 18};
    int n = c.range(1, 3, "number of objects");
    int kinds = c.thorough ? 7 : 5;
    std::vector<ObjectPtr> obj;
    std::vector<int> cls;
    std::vector<std::string> names;
    Tree root;
    File f;
    for (int i = 0; i < n; ++i)
    {
        cls.push_back(CLS[c.choose(kinds, "class")]);
        obj.push_back(create(cls.back()));
        bool dflt = c.flip("default name");
        std::string name = dflt ? obj.back()->section() : "node" + std::to_string(i);
        if (root.find(name) != NULL) throw mc::Prune();
        names.push_back(name);
        Tree values = obj.back()->make(3 * i + 1);
        File in;
        Tree r;
        r.add(obj.back()->section(), values);
        in.put(encode(b, r, true));
        obj.back()->read(b, 3, in.path, "", -1);
        root.add(name, values);
    }
    {
        std::shared_ptr<Msgpack::Writer> wm;
        std::shared_ptr<Yaml::Writer> wy;
        if (b == MSGPACK) wm.reset(new Msgpack::Writer(f.path)); else wy.reset(new Yaml::Writer(f.path));
        for (int i = 0; i < n; ++i)
        {
            c.step("write " + names[i]);
            if (b == MSGPACK) obj[i]->writeTo(*wm, names[i]); else obj[i]->writeTo(*wy, names[i]);
            // the file is complete after each object
            Tree part;
            for (int k = 0; k <= i; ++k) part.add(names[k], *root.find(names[k]));
            fileIs(c, b, f, part, "file-of-several", "file after " + std::to_string(i + 1) + " objects");
        }
    }
    fileIs(c, b, f, root, "file-of-several-closed", "closed file");

    // every sequence of reads
    int reads = c.thorough ? 4 : 3;
    std::shared_ptr<Msgpack::Reader> rm;
    std::shared_ptr<Yaml::Reader> ry;
    if (b == MSGPACK) rm.reset(new Msgpack::Reader(f.path)); else ry.reset(new Yaml::Reader(f.path));
    for (int k = 0; k < reads; ++k)
    {
        int i = c.choose(n, "object to read");
        ObjectPtr y = create(cls[i]);
        c.step("read " + names[i]);
        if (b == MSGPACK) y->readFrom(*rm, names[i], -1); else y->readFrom(*ry, names[i], -1);
        expect(c, b, *root.find(names[i]), y->observe(), true, "read-of-several", names[i]);
        expect(c, b, obj[i]->observe(), y->observe(), false, "object-of-several", names[i]);
    }
    c.state(show(root));
}

// the entries which the bridges offer to configurable classes: all kinds of values
namespace
{
    enum E { ZERO = 0, ONE = 1, BIG = 1000, NEG = -3 };

    class Everything : public humoto::config::ConfigurableBase
    {
        #define HUMOTO_CONFIG_SECTION_ID "Everything"
        #define HUMOTO_CONFIG_CONSTRUCTOR Everything
        #define HUMOTO_CONFIG_ENTRIES \
            HUMOTO_CONFIG_SCALAR_(flag) HUMOTO_CONFIG_SCALAR_(integer) HUMOTO_CONFIG_SCALAR_(size) HUMOTO_CONFIG_SCALAR_(real) HUMOTO_CONFIG_SCALAR_(text) \
            HUMOTO_CONFIG_ENUM_(choice) HUMOTO_CONFIG_ENUM(plain) HUMOTO_CONFIG_SCALAR(plain_real) HUMOTO_CONFIG_COMPOUND(plain_vector) \
            HUMOTO_CONFIG_COMPOUND_(vector3) HUMOTO_CONFIG_COMPOUND_(vectorx) HUMOTO_CONFIG_COMPOUND_(integers) \
            HUMOTO_CONFIG_COMPOUND_(matrix23) HUMOTO_CONFIG_COMPOUND_(matrixx) HUMOTO_CONFIG_COMPOUND_(rowmajor) \
            HUMOTO_CONFIG_COMPOUND_(names) HUMOTO_CONFIG_COMPOUND_(reals) HUMOTO_CONFIG_COMPOUND_(table) HUMOTO_CONFIG_COMPOUND_(numbers) \
            HUMOTO_CONFIG_MEMBER_CLASS(inner_, "inner")
        #include HUMOTO_CONFIG_DEFINE_ACCESSORS

        public:
            bool flag_; int integer_; std::size_t size_; double real_; std::string text_;
            E choice_, plain; double plain_real; etools::Vector2 plain_vector;
            etools::Vector3 vector3_; Eigen::VectorXd vectorx_; Eigen::VectorXi integers_;
            Eigen::Matrix<double, 2, 3> matrix23_; Eigen::MatrixXd matrixx_; Eigen::Matrix<double, 3, 2, Eigen::RowMajor> rowmajor_;
            std::vector<std::string> names_; std::vector<double> reals_; std::vector<std::vector<std::string> > table_; std::vector<std::vector<double> > numbers_;
            humoto::rigidbody::PointMassState inner_;
            int finalized_;

            Everything() { setDefaults(); finalized_ = 0; }
            void setDefaults()
            {
                flag_ = false; integer_ = 0; size_ = 0; real_ = 0.0; text_.clear();
                choice_ = plain = ZERO; plain_real = 0; plain_vector.setZero(); vector3_.setZero(); vectorx_.resize(0); integers_.resize(0);
                matrix23_.setZero(); matrixx_.resize(0, 0); rowmajor_.setZero(); names_.clear(); reals_.clear(); table_.clear(); numbers_.clear(); inner_.setDefaults();
                finalized_ = 0;
            }
            void finalize() { ++finalized_; }
    };
}

MC_SCENARIO(values, 16, 4)
{
    Bridge b = bridge(c);
    Everything x;
    static const double D[] = {0.0, -0.0, 1.0, -1.5, 0.1, 1.0 / 3.0, 123456789.123456, 1e300, -1e-300, 2.2250738585072014e-308};
    static const char *S[] = {"", "CoP", "two words", "a: b", "'quoted' \"text\"", "1.5", "true", "~", "[x, y]", "# no comment", "- item", "{}", "line\nbreak", "back\\slash", "trailing "};
    static const long I[] = {0, 1, -1, 127, 128, -129, 70000, 2147483647L};
    static const std::size_t U[] = {0, 1, 255, 65536, 4294967295UL, 9007199254740993UL};
    int which = c.range(0, 5, "varied");
    Values v(5);
    x.flag_ = c.flip("flag");
    x.integer_ = which == 0 ? c.pick(I, "integer") : 5;
    x.size_ = which == 1 ? c.pick(U, "size") : 7;
    x.real_ = which == 2 ? c.pick(D, "real") : 0.25;
    x.text_ = which == 3 ? c.pick(S, "text") : "text";
    static const E ES[] = {ZERO, ONE, BIG, NEG};
    x.choice_ = c.pick(ES, "choice");
    x.plain = ES[(x.flag_ ? 1 : 2)];
    x.plain_real = which == 2 ? c.pick(D, "plain real") : -0.5;
    x.plain_vector << v.d(), v.d();
    x.vector3_ << v.d(), (which == 2 ? c.pick(D, "element") : 1.0), v.d();
    int n = which == 4 ? c.range(0, 4, "length") : 2, r = which == 4 ? c.range(0, 3, "rows") : 2, q = which == 4 ? c.range(0, 3, "cols") : 3;
    x.vectorx_.resize(n);
    x.integers_.resize(n);
    for (int i = 0; i < n; ++i) { x.vectorx_[i] = v.d(); x.integers_[i] = i - 1; }
    for (int i = 0; i < 6; ++i) { x.matrix23_(i / 3, i % 3) = v.d(); x.rowmajor_(i / 2, i % 2) = v.d(); }
    x.matrixx_.resize(r, q);
    for (int i = 0; i < r; ++i) for (int k = 0; k < q; ++k) x.matrixx_(i, k) = v.d();
    int m = which == 5 ? c.range(0, 3, "number of lists") : 2;
    for (int i = 0; i < m; ++i)
    {
        int len = which == 5 ? c.range(0, 2, "length of a list") : 2;
        x.table_.push_back(std::vector<std::string>());
        x.numbers_.push_back(std::vector<double>());
        for (int k = 0; k < len; ++k) { x.table_.back().push_back(k == 1 && which == 3 ? x.text_ : v.s()); x.numbers_.back().push_back(v.d()); }
        x.names_.push_back(which == 3 ? x.text_ : v.s());
        x.reals_.push_back(v.d());
    }
    x.inner_.position_ << v.d(), v.d(), v.d();
    x.inner_.velocity_ << v.d(), v.d(), v.d();
    x.inner_.acceleration_ << v.d(), v.d(), v.d();

    Tree t, root, names = Tree::arr(), reals = Tree::arr(), table = Tree::arr(), numbers = Tree::arr(), ints = Tree::arr(), inner;
    for (size_t i = 0; i < x.names_.size(); ++i)
    {
        names.a.push_back(Tree::str(x.names_[i]));
        reals.a.push_back(Tree(x.reals_[i]));
        Tree row = Tree::arr();
        for (size_t k = 0; k < x.table_[i].size(); ++k) row.a.push_back(Tree::str(x.table_[i][k]));
        table.a.push_back(row);
        numbers.a.push_back(Tree::vec(Eigen::Map<Eigen::VectorXd>(x.numbers_[i].data(), x.numbers_[i].size())));
    }
    for (int i = 0; i < n; ++i) ints.a.push_back(Tree::integer(x.integers_[i]));
    Spec<humoto::rigidbody::PointMassState>::observe(x.inner_, inner);
    t.add("flag", Tree::boolean(x.flag_)).add("integer", Tree::integer(x.integer_)).add("size", Tree::integer(x.size_)).add("real", Tree(x.real_)).add("text", Tree::str(x.text_));
    t.add("choice", Tree::integer(x.choice_)).add("plain", Tree::integer(x.plain)).add("plain_real", Tree(x.plain_real)).add("plain_vector", Tree::vec(x.plain_vector));
    t.add("vector3", Tree::vec(x.vector3_)).add("vectorx", Tree::vec(x.vectorx_)).add("integers", ints).add("matrix23", Tree::mat(x.matrix23_));
    t.add("matrixx", Tree::mat(x.matrixx_)).add("rowmajor", Tree::mat(x.rowmajor_)).add("names", names).add("reals", reals).add("table", table).add("numbers", numbers).add("inner", inner);
    root.add("Everything", t);

    File f;
    c.step("write");
    x.finalized_ = 0;
    if (b == MSGPACK) x.writeConfig<Msgpack::Writer>(f.path); else x.writeConfig<Yaml::Writer>(f.path);
    fileIs(c, b, f, root, "values-written", "written file");

    // the file which was written and an independent one
    for (int k = 0; k < 2; ++k)
    {
        if (k == 1) { if (which == 3 && b == YAML_) break; f.put(encode(b, root, true)); }
        Everything y;
        y.vectorx_ = Eigen::VectorXd::Constant(3, 9.0);
        y.matrixx_ = Eigen::MatrixXd::Constant(2, 4, 9.0);
        y.table_.resize(5);
        c.step("read");
        if (b == MSGPACK) y.readConfig<Msgpack::Reader>(f.path); else y.readConfig<Yaml::Reader>(f.path);
        double tol = b == MSGPACK ? 0.0 : 1e-14;
        c.check(y.flag_ == x.flag_ && y.integer_ == x.integer_ && y.size_ == x.size_ && y.text_ == x.text_ && y.choice_ == x.choice_ && y.plain == x.plain, "values-read", "scalars");
        c.check(std::fabs(y.real_ - x.real_) <= tol * std::fabs(x.real_) && std::fabs(y.plain_real - x.plain_real) <= tol * std::fabs(x.plain_real), "values-read", "reals");
        c.nearM(y.plain_vector, x.plain_vector, "values-read", "plain vector", 1e-14);
        c.check(std::fabs(y.vector3_[1] - x.vector3_[1]) <= tol * std::fabs(x.vector3_[1]), "values-read", "vector element");
        c.nearM(y.vectorx_, x.vectorx_, "values-read", "vector of any length", 1e-14);
        c.nearM(y.integers_, x.integers_, "values-read", "vector of integers");
        c.nearM(y.matrix23_, x.matrix23_, "values-read", "matrix", 1e-14);
        c.nearM(y.matrixx_, x.matrixx_, "values-read", "matrix of any size", 1e-14);
        c.nearM(y.rowmajor_, x.rowmajor_, "values-read", "row-major matrix", 1e-14);
        c.check(y.names_ == x.names_ && y.table_ == x.table_, "values-read", "lists of strings");
        c.check(y.reals_.size() == x.reals_.size() && y.numbers_.size() == x.numbers_.size(), "values-read", "lists of numbers");
        for (size_t i = 0; i < x.reals_.size(); ++i)
        {
            c.near(y.reals_[i], x.reals_[i], "values-read", "list of numbers", 1e-14);
            c.check(y.numbers_[i].size() == x.numbers_[i].size(), "values-read", "list of lists");
            for (size_t j = 0; j < x.numbers_[i].size(); ++j) c.near(y.numbers_[i][j], x.numbers_[i][j], "values-read", "list of lists of numbers", 1e-14);
        }
        c.nearM(y.inner_.position_, x.inner_.position_, "values-read", "member class", 1e-14);
        c.nearM(y.inner_.acceleration_, x.inner_.acceleration_, "values-read", "member class", 1e-14);
        c.check(y.finalized_ == 1, "finalized", "finalize() is called once after reading");
    }
    c.state(show(root));
}

// ---------------------------------------------------------------- hierarchies
namespace
{
    // all stacks of at most 'max' tasks on 'levels' levels
    Stack chooseStack(mc::Ctx &c, int module, int levels, int max)
    {
        std::vector<const TaskType *> types;
        for (size_t i = 0; i < taskTypes().size(); ++i) if (taskTypes()[i].module == module || taskTypes()[i].module == 0) types.push_back(&taskTypes()[i]);
        Stack s(levels);
        int n = 0;
        for (int l = 0; l < levels; ++l)
        {
            int k = c.range(0, std::min(2, max - n), "tasks on the level");
            for (int i = 0; i < k; ++i)
            {
                Item t;
                t.type = n < 2 ? types[c.choose(types.size(), "type of a task")] : types[(l * 3 + i + 1) % types.size()];
                t.id = "task" + std::to_string(n);
                t.values = makeTask(*t.type, ++n);
                s[l].push_back(t);
            }
        }
        return s;
    }

    template<class P> void problem(mc::Ctx &c, int module)
    {
        Bridge b = bridge(c);
        int levels = c.range(1, 3, "levels");
        bool pushed = c.flip("tasks are pushed");
        Spy<P> p;
        int history = c.range(0, pushed ? 1 : 2, "history");
        if (history > 0)
        {
            // the object was used before with another hierarchy
            p.reset(2);
            p.pushTask(humoto::TaskSharedPointer(new humoto::TaskZeroVariables(3.0, "old")), 1, "TaskZeroVariables");
            if (history == 2)
            {
                File f;
                writeProblem(p, b, f.path);
                readProblem(p, b, f.path);
            }
        }
        Stack s = chooseStack(c, module, levels, c.thorough ? 3 : 2);
        Tree root;
        root.add("OptimizationProblem", treeOf(s));
        File in, out;
        if (pushed)
        {
            p.reset(levels);
            for (int l = 0; l < levels; ++l)
            {
                for (size_t k = 0; k < s[l].size(); ++k)
                {
                    humoto::TaskSharedPointer t = s[l][k].type->make();
                    t->setDescription(s[l][k].id);
                    Tree one;
                    one.add("x", s[l][k].values);
                    File f;
                    f.put(encode(MSGPACK, one, true));
                    t->template readConfig<Msgpack::Reader>(f.path, "x");
                    c.step("push " + s[l][k].id);
                    p.pushTask(t, l, s[l][k].type->name);
                }
            }
        }
        else
        {
            in.put(encode(b, root, true));
            c.step("read the hierarchy");
            readProblem(p, b, in.path);
        }
        compare(c, b, p, s, "hierarchy-read");
        c.step("write the hierarchy");
        writeProblem(p, b, out.path);
        fileIs(c, b, out, root, "hierarchy-written", "written hierarchy");
        Spy<P> q;
        if (c.flip("read into the same object")) { c.step("read it again"); readProblem(p, b, out.path); compare(c, b, p, s, "hierarchy-read-again"); }
        else { c.step("read it"); readProblem(q, b, out.path); compare(c, b, q, s, "hierarchy-read-back"); }
        c.state(show(root));
    }
}
MC_SCENARIO(core_hierarchy, 16, 5) { problem<humoto::ConfigurableOptimizationProblem>(c, 0); }
MC_SCENARIO(wpg04_hierarchy, 16, 5) { problem<humoto::wpg04::ConfigurableOptimizationProblem>(c, 1); }
MC_SCENARIO(pepper_mpc_hierarchy, 16, 5) { problem<humoto::pepper_mpc::ConfigurableOptimizationProblem>(c, 2); }
