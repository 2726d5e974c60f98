// Like extra.cpp, for classes whose virtual methods are overridden; left out on its own when the signatures do not fit.
#include <stdexcept>
#include <vector>
#include <pyclustering/interface/pyclustering_package.hpp>
#include <pyclustering/cluster/hsyncnet.hpp>
#define EXT extern "C" __attribute__((visibility("default"))) pyclustering_package *
using namespace pyclustering;
using namespace pyclustering::clst;
using namespace pyclustering::differential;
typedef std::vector<std::vector<double>> rows;

static rows read(const pyclustering_package * p) { rows r; if (p->size) p->extract(r); return r; }
static pyclustering_package * out(const rows & r) { return create_package(&r); }
static pyclustering_package * failed() { rows r; return create_package(&r); }

// hierarchical sync network whose simulation hands out the phases of a table: row 0 of p_phases is the initial state, row i + 1 the state after simulation i
struct scripted_hsyncnet : public pyclustering::clst::hsyncnet {
    rows m_table, m_links;
    scripted_hsyncnet(dataset * d, const rows & a, const rows & t) :
        hsyncnet(d, (std::size_t) a[0][0], pyclustering::nnet::initial_type::EQUIPARTITION, (std::size_t) a[0][1], a[0][2]), m_table(t) { }
    void simulate_dynamic(const double, const double, const solve_type, const bool collect, pyclustering::nnet::sync_dynamic & dynamic) override {
        if (m_links.size() + 1 >= m_table.size()) throw std::runtime_error("too many simulations");
        std::vector<double> links;
        for (std::size_t i = 0; i < size(); i++)
            for (std::size_t j = 0; j < size(); j++) links.push_back(connections()->has_connection(i, j) ? 1.0 : 0.0);
        m_links.push_back(links);
        dynamic.clear();
        if (collect) dynamic.push_back(pyclustering::nnet::sync_network_state(0.0, m_table[m_links.size() - 1]));
        dynamic.push_back(pyclustering::nnet::sync_network_state(0.1, m_table[m_links.size()]));
    }
};

// p_args = {{clusters, neighbors, percent, collect}}: {{amount of simulations}, connections of every simulation..., {time, phases...} of every state}
EXT verif_hsyncnet(const pyclustering_package * p_data, const pyclustering_package * p_args, const pyclustering_package * p_phases) {
    try {
        rows data = read(p_data), a = read(p_args), t = read(p_phases), res;
        scripted_hsyncnet net(&data, a, t);
        hsyncnet_analyser analyser;
        net.process(0.998, solve_type::FORWARD_EULER, a[0][3] != 0.0, analyser);
        res.push_back({ (double) net.m_links.size() });
        for (auto & l : net.m_links) res.push_back(l);
        for (auto & s : analyser) {
            std::vector<double> r { s.m_time };
            r.insert(r.end(), s.m_phase.begin(), s.m_phase.end());
            res.push_back(r);
        }
        return out(res);
    } catch (std::exception &) { return failed(); }
}
