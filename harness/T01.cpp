#include <deque>
#include <iostream>
#include <memory>
#include <sstream>
#include "pbt.hpp"
#include <cmp/core/test_module.hpp>
const pbt::Info pbt_info{"T01",
    "test modules of 0-1150 tests in random order, run once or again, each with random stages, outcome, message pushes and pops and creations, copies, moves and destructions of recording objects, run and "
    "compared with a model of the report and of the message queue; non-trivial: at least two tests of which at least one fails",
    300000, 3600000};

namespace {
struct Action { int kind; int arg; int arg2; };
struct Script { int fn; std::string name; bool ok; std::vector<Action> acts; };

class Mod : public cmp::test_module<Mod> {
public:
    explicit Mod(std::vector<test_function_pointer> v, const std::vector<Script>& s) : test_module<Mod>{v}, m_script(s) {}
    template <int K> bool test() { return run(K); }
    std::vector<int> ran;
    std::string problem;
private:
    const std::vector<Script>& m_script;
    bool run(int fn) {
        std::size_t at = ran.size();
        ran.push_back(fn);
        if (at >= m_script.size()) { bad("more tests run than registered"); return false; }
        const Script& s = m_script[at];
        start_test(s.name.c_str());
        std::deque<int> model;
        auto expect = [&](const char* when) { if (get_message_count() != model.size()) bad(std::string(when) + ": " + std::to_string(get_message_count()) + " messages, should be " + std::to_string(model.size())); };
        auto pop = [&] {
            message m = pop_message();
            int want = model.empty() ? 0 : model.front();
            if (!model.empty()) model.pop_front();
            if (static_cast<int>(m) != want) bad("popped message " + std::to_string(static_cast<int>(m)) + ", should be " + std::to_string(want));
        };
        expect("at the start of a test");
        if (get_message_count() == 0) pop();
        {
            std::vector<std::unique_ptr<dummy>> d;
            std::vector<int> val;
            for (const Action& a : s.acts) {
                std::size_t k = d.empty() ? 0 : static_cast<std::size_t>(a.arg) % d.size();
                switch (a.kind) {
                    case 0: end_stage(); break;
                    case 1: push_message(static_cast<message>(1 + a.arg % 4)); model.push_back(1 + a.arg % 4); break;
                    case 2: pop(); break;
                    case 3: clear_message_queue(); model.clear(); break;
                    case 4:
                        if (a.arg2 % 4 == 0) { d.push_back(std::make_unique<dummy>(this)); val.push_back(0); }
                        else { d.push_back(std::make_unique<dummy>(this, a.arg)); val.push_back(a.arg); }
                        model.push_back(1);
                        break;
                    case 5: if (!d.empty()) { d.push_back(std::make_unique<dummy>(std::as_const(*d[k]))); val.push_back(val[k]); model.push_back(2); } break;
                    case 6: if (!d.empty()) { d.push_back(std::make_unique<dummy>(std::move(*d[k]))); val.push_back(val[k]); val[k] = 0; model.push_back(3); } break;
                    case 7: if (!d.empty()) { d.erase(d.begin() + static_cast<std::ptrdiff_t>(k)); val.erase(val.begin() + static_cast<std::ptrdiff_t>(k)); model.push_back(4); } break;
                    default: if (!d.empty()) { d[k]->set_value(a.arg2); val[k] = a.arg2; }
                }
                expect("after an action");
                for (std::size_t i = 0; i < d.size(); ++i) if (d[i]->get_value() != val[i]) bad("a recording object holds " + std::to_string(d[i]->get_value()) + ", should be " + std::to_string(val[i]));
            }
            while (!d.empty()) { d.pop_back(); model.push_back(4); }
        }
        expect("at the end of a test");
        return s.ok;
    }
    void bad(const std::string& s) { if (problem.empty()) problem = s; }
};
constexpr int fn_count = 8;
const Mod::test_function_pointer fns[fn_count] = {&Mod::test<0>, &Mod::test<1>, &Mod::test<2>, &Mod::test<3>, &Mod::test<4>, &Mod::test<5>, &Mod::test<6>, &Mod::test<7>};

struct Capture {
    std::ostringstream out, err;
    std::streambuf *o, *e;
    Capture() : o(std::cout.rdbuf(out.rdbuf())), e(std::cerr.rdbuf(err.rdbuf())) {}
    ~Capture() { std::cout.rdbuf(o); std::cerr.rdbuf(e); }
};
bool has(const std::string& line, const std::string& what) { return line.find(what) != std::string::npos; }
}

void pbt_property(pbt::Tape& t, pbt::Case& c) {
    std::size_t n = t.chance(1, 400) ? 250 + t.draw(900) : t.chance(1, 20) ? t.length(250) : t.length(12);
    std::vector<Script> s(n);
    std::vector<Mod::test_function_pointer> v;
    std::vector<std::size_t> failed;
    std::size_t most = 0;
    for (std::size_t i = 0; i < n; ++i) {
        s[i].fn = static_cast<int>(t.draw(fn_count));
        s[i].name = t.chance(1, 10) ? "same" : "n" + std::to_string(i * 7919 % 100003) + (t.flip() ? "x" : "");
        s[i].ok = !t.chance(1, 3);
        if (!s[i].ok) failed.push_back(i);
        std::size_t k = n > 12 ? t.length(4) : t.length(t.chance(1, 10) ? 120 : 12);
        for (std::size_t j = 0; j < k; ++j) s[i].acts.push_back({static_cast<int>(t.weighted({5, 3, 3, 1, 3, 2, 2, 2, 1})), static_cast<int>(t.draw(1000)), static_cast<int>(t.draw(1000))});
        if (t.chance(1, 3000)) for (std::size_t j = 0, m = 250 + t.draw(600); j < m; ++j) s[i].acts.push_back({t.chance(1, 50) ? 1 : 0, 1, 1});
        else if (t.chance(1, 3000)) for (std::size_t j = 0, m = 250 + t.draw(600); j < m; ++j) s[i].acts.push_back({1, static_cast<int>(j), 1});
        v.push_back(fns[s[i].fn]);
        most = std::max(most, k);
    }
    c.nontrivial(n >= 2 && !failed.empty());
    c.label_if(n > 9, "10 or more tests"); c.label_if(n > 99, "100 or more tests"); c.label_if(failed.empty(), "no failures"); c.label_if(n == failed.size() && n > 0, "only failures");
    c.note([&](auto& os) { os << n << " tests, failed:"; for (auto f : failed) os << ' ' << f + 1; os << "; actions"; for (auto& x : s) { os << " |"; for (auto& a : x.acts) os << ' ' << a.kind; } });
    int result = 0;
    std::string text, problem;
    std::vector<int> ran;
    // a module may be run again, which is a run like the first
    std::size_t runs = t.chance(1, 6) ? 2 + t.draw(2) : 1;
    // The known finding T01-run-again: the results of all runs are added up, and numbers that get longer than that of the last test are written outside their text.
    static const char* listed = std::getenv("PBT_KNOWN");
    bool known = listed && std::strstr(listed, "T01-run-again");
    if (known && std::to_string(n * runs).size() != std::to_string(n).size()) runs = 1;
    c.label_if(runs > 1, "run more than once");
    bool moved = t.chance(1, 4), copied = t.chance(1, 4);
    std::string logged, logged_err;
    {
        Capture cap;
        Mod m{v, s};
        std::unique_ptr<Mod> other;
        if (copied) other = std::make_unique<Mod>(std::as_const(m));
        else if (moved) other = std::make_unique<Mod>(std::move(m));
        Mod& use = other ? *other : m;
        use.log_info() << "hello";
        use.log_error() << "trouble";
        logged = cap.out.str(); logged_err = cap.err.str();
        for (std::size_t r = 0; r < runs; ++r) {
            cap.out.str("");
            use.ran.clear();
            result = use.run_tests();
            if (use.get_message_count() != 0) use.problem = "messages left after the run";
            known = known && result == static_cast<int>((r + 1) * failed.size()) && use.ran.size() == n;
            if (!known && r + 1 < runs && (result != static_cast<int>(failed.size()) || use.ran.size() != n)) use.problem = "an earlier run gave " + std::to_string(result);
        }
        text = cap.out.str();
        ran = use.ran; problem = use.problem;
    }
    PBT_CHECK(has(logged, "hello") && has(logged_err, "trouble") && !has(logged, "trouble"), "logging");
    PBT_CHECK(problem.empty(), problem);
    PBT_CHECK(ran.size() == n, ran.size() << " tests ran of " << n);
    for (std::size_t i = 0; i < n; ++i) PBT_CHECK(ran[i] == s[i].fn, "test " << i + 1 << " was another one");
    if (known && runs > 1 && n > 0 && has(text, "\nSuccessful tests: " + std::to_string(runs * (n - failed.size())) + "\nFailed tests: " + std::to_string(runs * failed.size()) + "\n")) {
        c.label("known: T01-run-again");
        return;
    }
    PBT_CHECK(result == static_cast<int>(failed.size()), "run_tests gave " << result << " with " << failed.size() << " failed tests");
    std::istringstream is(text);
    std::vector<std::string> lines;
    for (std::string l; std::getline(is, l);) lines.push_back(l);
    std::size_t totals = lines.size();
    for (std::size_t i = 0; i < lines.size(); ++i) if (lines[i].rfind("Successful tests: ", 0) == 0) totals = i;
    PBT_CHECK(totals < lines.size() && lines[totals] == "Successful tests: " + std::to_string(n - failed.size()), "wrong number of successful tests");
    bool found = false;
    std::vector<std::string> report;
    for (std::size_t i = totals; i < lines.size(); ++i) {
        if (lines[i] == "Failed tests: " + std::to_string(failed.size())) found = true;
        if (has(lines[i], "failed on stage")) report.push_back(lines[i]);
    }
    PBT_CHECK(found, "wrong number of failed tests");
    PBT_CHECK(report.size() == failed.size(), report.size() << " failures reported, should be " << failed.size());
    for (std::size_t k = 0; k < failed.size(); ++k) {
        auto& x = s[failed[k]];
        std::size_t stages = 0;
        for (auto& a : x.acts) stages += a.kind == 0;
        std::string want = "Test #" + std::to_string(failed[k] + 1) + " - '" + x.name + "' failed on stage " + std::to_string(stages + 1);
        PBT_CHECK(report[k] == want, "reported \"" << report[k] << "\", should be \"" << want << '"');
    }
    // each test is announced and closed with its number, padded to the width of the last one
    std::size_t at = 0, width = std::to_string(n).size();
    for (std::size_t i = 0; i < n; ++i) {
        std::string num = std::to_string(i + 1);
        num = std::string(width - num.size(), '0') + num;
        std::size_t stages = 0;
        for (auto& a : s[i].acts) stages += a.kind == 0;
        std::string head = "Test #" + num + " - '" + s[i].name + "' ";
        while (at < totals && lines[at] != head + "starting.") ++at;
        PBT_CHECK(at < totals, "no announcement of test " << i + 1);
        std::size_t seen = 0;
        while (at < totals && lines[at].rfind(head + (s[i].ok ? "succeeded" : "failed"), 0) != 0) seen += has(lines[at++], "completed successfully");
        PBT_CHECK(at < totals, "no result of test " << i + 1);
        PBT_CHECK(seen == stages, "test " << i + 1 << " shows " << seen << " stages, should be " << stages);
        PBT_CHECK(has(lines[at], " with " + std::to_string(stages) + " successful stage"), "result of test " << i + 1 << ": " << lines[at]);
    }
}
