// Entry points for classes of the core that the library does not export; every call goes to the real class.
#include <cstdint>
#include <memory>
#include <stdexcept>
#include <vector>
#include <pyclustering/differential/runge_kutta_4.hpp>
#include <pyclustering/differential/runge_kutta_fehlberg_45.hpp>
#include <pyclustering/interface/pyclustering_package.hpp>
#include <pyclustering/cluster/kmeans_plus_plus.hpp>
#include <pyclustering/cluster/random_center_initializer.hpp>
#include <pyclustering/container/adjacency_bit_matrix.hpp>
#include <pyclustering/container/adjacency_connector.hpp>
#include <pyclustering/container/adjacency_factory.hpp>
#include <pyclustering/container/adjacency_list.hpp>
#include <pyclustering/container/adjacency_matrix.hpp>
#include <pyclustering/container/adjacency_weight_list.hpp>
#include <pyclustering/container/kdtree.hpp>
#include <pyclustering/container/kdtree_balanced.hpp>
#include <pyclustering/container/kdtree_searcher.hpp>
#include <pyclustering/parallel/parallel.hpp>
#include <pyclustering/cluster/ordering_analyser.hpp>
#include <pyclustering/utils/stats.hpp>
#define EXT extern "C" __attribute__((visibility("default"))) pyclustering_package *
using namespace pyclustering;
using namespace pyclustering::clst;
using namespace pyclustering::container;
typedef std::vector<std::vector<double>> rows;

static rows read(const pyclustering_package * p) { rows r; if (p->size) p->extract(r); return r; }
static pyclustering_package * out(const rows & r) { return create_package(&r); }
static pyclustering_package * failed() { rows r; return create_package(&r); }

// rows[0] = {mode, amount, candidates (-1: farthest)}, rows[1] = indexes; mode 0: centers, 1: indexes of centers, 2: random centers
EXT verif_initialize(const pyclustering_package * p_data, const pyclustering_package * p_args) {
    try {
        rows data = read(p_data), a = read(p_args);
        int mode = (int) a[0][0];
        std::size_t amount = (std::size_t) a[0][1];
        std::size_t cand = a[0][2] < 0 ? kmeans_plus_plus::FARTHEST_CENTER_CANDIDATE : (std::size_t) a[0][2];
        index_sequence idx;
        for (double v : a[1]) idx.push_back((std::size_t) v);
        rows res(1);
        if (mode == 1) {
            index_sequence c;
            kmeans_plus_plus(amount, cand, 1).initialize(data, c);
            for (auto v : c) res[0].push_back((double) v);
            return out(res);
        }
        dataset centers;
        if (mode == 0) {
            if (idx.empty()) kmeans_plus_plus(amount, cand, 1).initialize(data, centers);
            else kmeans_plus_plus(amount, cand, 1).initialize(data, idx, centers);
        }
        else random_center_initializer(amount, 1).initialize(data, centers);
        return out(centers);
    } catch (std::exception &) { return failed(); }
}

static void collect(const kdnode::ptr & n, const kdnode::ptr & parent, int depth, rows & res) {
    if (!n) return;
    // {payload, parent payload (-1: none), left payload, right payload, discriminator, depth, parent link is right}
    auto id = [](const kdnode::ptr & x) { return x ? (double) (intptr_t) x->get_payload() : -1.0; };
    res.push_back({ id(n), id(parent), id(n->get_left()), id(n->get_right()), (double) n->get_discriminator(), (double) depth, n->get_parent() == parent ? 1.0 : 0.0 });
    collect(n->get_left(), n, depth + 1, res);
    collect(n->get_right(), n, depth + 1, res);
}

// rows of p_ops: {0, payload, x...} insert, {1, payload, x...} remove; the tree is balanced from the data if p_args[0][0] is 1.
// the result: the nodes, then {-2, size}, then per query (rows of p_queries: {kind, radius, x...}) a row of (payload, distance) pairs
EXT verif_kdtree(const pyclustering_package * p_data, const pyclustering_package * p_ops, const pyclustering_package * p_queries, const pyclustering_package * p_args) {
    try {
        rows data = read(p_data), ops = read(p_ops), qs = read(p_queries), a = read(p_args), res;
        std::vector<void *> pay;
        for (std::size_t i = 0; i < data.size(); i++) pay.push_back((void *) (intptr_t) i);
        std::shared_ptr<kdtree_balanced> t;
        if (a[0][0] == 1.0) t = std::make_shared<kdtree_balanced>(data, pay);
        else {
            auto d = std::make_shared<kdtree>(data, pay);
            for (auto & o : ops) {
                std::vector<double> p(o.begin() + 2, o.end());
                if (o[0] == 0.0) d->insert(p, (void *) (intptr_t) o[1]);
                else d->remove(p, (void *) (intptr_t) o[1]);
            }
            t = d;
        }
        collect(t->get_root(), nullptr, 0, res);
        res.push_back({ -2.0, (double) t->get_size() });
        for (auto & q : qs) {
            std::vector<double> p(q.begin() + 2, q.end());
            std::vector<double> r;
            if (q[0] == 0.0) {
                std::vector<double> ds; std::vector<kdnode::ptr> ns;
                kdtree_searcher(p, t->get_root(), q[1]).find_nearest_nodes(ds, ns);
                for (std::size_t i = 0; i < ns.size(); i++) { r.push_back((double) (intptr_t) ns[i]->get_payload()); r.push_back(ds[i]); }
            }
            else if (q[0] == 1.0) {
                auto n = kdtree_searcher(p, t->get_root(), q[1]).find_nearest_node();
                if (n) r.push_back((double) (intptr_t) n->get_payload());
            }
            else {
                auto n = t->find_node(p);
                if (n) r.push_back((double) (intptr_t) n->get_payload());
            }
            res.push_back(r);
        }
        return out(res);
    } catch (std::exception &) { return failed(); }
}

// {A^2 statistic of the sample, critical values of its size...}
EXT verif_anderson(const pyclustering_package * p_data) {
    try {
        rows data = read(p_data), res;
        std::vector<double> r { pyclustering::utils::stats::anderson(data[0]) };
        for (double v : pyclustering::utils::stats::critical_values(data[0].size())) r.push_back(v);
        res.push_back(r);
        return out(res);
    } catch (std::exception &) { return failed(); }
}

// p_args[0] = {collection (0: bit matrix, 1: matrix, 2: list, 3: weight list), nodes, structure (-1: none requested), width, height}; p_ops: {0: set | 1: erase | 2: set weight, i, j, w} or {3} clear
// the result: {size}, then per node the flags of has_connection, its neighbors and its weights
EXT verif_adjacency(const pyclustering_package * p_ops, const pyclustering_package * p_args) {
    try {
        rows ops = read(p_ops), a = read(p_args), res;
        int kind = (int) a[0][0];
        std::size_t n = (std::size_t) a[0][1];
        std::shared_ptr<adjacency_collection> c;
        if (kind == 0) c = std::make_shared<adjacency_bit_matrix>(n);
        else if (kind == 1) c = std::make_shared<adjacency_matrix>(n);
        else if (kind == 2) c = std::make_shared<adjacency_list>(n);
        else c = std::make_shared<adjacency_weight_list>(n);
        if (a[0][2] >= 0) {
            adjacency_connector<adjacency_collection> connector;
            connection_t s = (connection_t) (int) a[0][2];
            if (a[0][3] > 0) connector.create_grid_structure(s, (std::size_t) a[0][3], (std::size_t) a[0][4], *c);
            else connector.create_structure(s, *c);
        }
        auto w = std::dynamic_pointer_cast<adjacency_weight_collection>(c);
        for (auto & o : ops) {
            if (o[0] == 0.0) c->set_connection((std::size_t) o[1], (std::size_t) o[2]);
            else if (o[0] == 1.0) c->erase_connection((std::size_t) o[1], (std::size_t) o[2]);
            else if (o[0] == 2.0) w->set_connection_weight((std::size_t) o[1], (std::size_t) o[2], o[3]);
            else if (o[0] == 3.0) c->clear();
        }
        res.push_back({ (double) c->size() });
        for (std::size_t i = 0; i < c->size(); i++) {
            std::vector<double> has, nb, ws;
            std::vector<std::size_t> x;
            c->get_neighbors(i, x);
            for (auto v : x) nb.push_back((double) v);
            for (std::size_t j = 0; j < c->size(); j++) {
                has.push_back(c->has_connection(i, j) ? 1.0 : 0.0);
                if (w) ws.push_back(w->get_connection_weight(i, j));
            }
            res.push_back(has); res.push_back(nb); res.push_back(ws);
        }
        return out(res);
    } catch (std::exception & e) { rows r { { -1.0 } }; return out(r); }
}

// p_args[0] = {kind (0: parallel_for, 1: parallel_for over the default step, 2: parallel_for_each, 3: parallel_for_each of a container), start, end, step, threads}
// the result: the visited indexes, in the order of their visits
EXT verif_parallel(const pyclustering_package * p_args) {
    try {
        rows a = read(p_args), res(1);
        int kind = (int) a[0][0];
        std::size_t start = (std::size_t) a[0][1], end = (std::size_t) a[0][2], step = (std::size_t) a[0][3], threads = (std::size_t) a[0][4];
        std::vector<std::size_t> all, visited;
        for (std::size_t i = start; i < end; i++) all.push_back(i);
        auto action = [&visited](const std::size_t i) { visited.push_back(i); };
        if (kind == 0) pyclustering::parallel::parallel_for(start, end, step, action, threads);
        else if (kind == 1) pyclustering::parallel::parallel_for(start, end, action);
        else if (kind == 2) pyclustering::parallel::parallel_for_each(all.begin(), all.end(), action, threads);
        else pyclustering::parallel::parallel_for_each(all, action);
        for (auto v : visited) res[0].push_back((double) v);
        return out(res);
    } catch (std::exception & e) { rows r { { -1.0 }, { -1.0 } }; return out(r); }
}

// p_args = {{solver (0: Runge-Kutta 4, 1: Runge-Kutta-Fehlberg 4/5), start, end, steps or tolerance, collect}, {y, z}, {a, b, g, c0, c1, c2, c3}} of the system
// y' = (a + b t) y + c0 + c1 t + c2 t^2 + c3 t^3, z' = g y; the result: {time, y, z} of every output
EXT verif_differential(const pyclustering_package * p_args) {
    try {
        rows a = read(p_args), res;
        using namespace pyclustering::differential;
        std::vector<double> k = a[2];
        equation<double> f = [&k](const double t, const differ_state<double> & s, const differ_extra<> &, differ_state<double> & o) {
            o.resize(2);
            o[0] = (k[0] + k[1] * t) * s[0] + k[3] + k[4] * t + k[5] * t * t + k[6] * t * t * t;
            o[1] = k[2] * s[0];
        };
        differ_state<double> init { a[1][0], a[1][1] };
        differ_result<double> r;
        if (a[0][0] == 0.0) runge_kutta_4(f, init, a[0][1], a[0][2], (std::size_t) a[0][3], a[0][4] != 0.0, differ_extra<>(), r);
        else runge_kutta_fehlberg_45(f, init, a[0][1], a[0][2], a[0][3], a[0][4] != 0.0, differ_extra<>(), r);
        for (auto & o : r) res.push_back({ o.time, o.state[0], o.state[1] });
        return out(res);
    } catch (std::exception &) { return failed(); }
}

// p_args = {ordering, {radius, amount, iterations}}: {{amount of clusters for the radius, radius for the amount of clusters}}
EXT verif_ordering(const pyclustering_package * p_args) {
    try {
        rows a = read(p_args), res(1);
        using pyclustering::clst::ordering_analyser;
        pyclustering::clst::ordering o(a[0].begin(), a[0].end());
        res[0].push_back((double) ordering_analyser::extract_cluster_amount(o, a[1][0]));
        res[0].push_back(ordering_analyser::calculate_connvectivity_radius(o, (std::size_t) a[1][1], (std::size_t) a[1][2]));
        return out(res);
    } catch (std::exception &) { return failed(); }
}
