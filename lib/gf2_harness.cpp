// Runs the linear algebra and the union-find tree of mqt-qecc on requests from stdin; one JSON line per request.
#include "Code.hpp"
#include "GF2.hpp"
#include "TreeNode.hpp"
#include "Utils.hpp"

#include <iostream>
#include <memory>
#include <nlohmann/json.hpp>
#include <string>
#include <vector>

static gf2Mat readMat(std::size_t r, std::size_t c) {
    gf2Mat m(r, gf2Vec(c));
    for (auto&& row : m) {
        for (std::size_t j = 0; j < c; j++) {
            int x = 0;
            std::cin >> x;
            row.at(j) = x != 0;
        }
    }
    return m;
}

static std::vector<std::vector<int>> plain(const gf2Mat& m) {
    std::vector<std::vector<int>> res;
    for (const auto& r : m) {
        res.emplace_back(r.begin(), r.end());
    }
    return res;
}

int main() {
    std::string op;
    while (std::cin >> op) {
        nlohmann::json j;
        if (op == "plu") {
            std::size_t r = 0;
            std::size_t c = 0;
            std::cin >> r >> c;
            const auto            m = readMat(r, c);
            const auto            v = readMat(1, c).front();
            std::vector<uint64_t> y(r);
            for (auto& b : y) {
                std::cin >> b;
            }
            PluDecomposition plu(r, c, Utils::toCsc(m));
            j["rank"]  = plu.getMatrixRank();
            j["x"]     = plu.luSolve(y);
            j["inrow"] = Utils::isVectorInRowspace(m, v);
            j["trans"] = plain(Utils::getTranspose(m));
            gf2Vec prod(r);
            Utils::rectMatrixMultiply(m, v, prod);
            j["prod"] = std::vector<int>(prod.begin(), prod.end());
            gf2Vec res(prod);
            gf2Vec err(y.begin(), y.end());
            Utils::computeResidualErr(err, res);
            j["resid"]  = std::vector<int>(res.begin(), res.end());
            auto swapped = m;
            Utils::swapRows(swapped, 0, r - 1);
            j["swapped"] = plain(swapped);
        } else if (op == "tree") {
            std::size_t n = 0;
            std::size_t k = 0;
            std::cin >> n >> k;
            std::vector<std::unique_ptr<TreeNode>> nodes;
            for (std::size_t i = 0; i < n; i++) {
                int check = 0;
                std::cin >> check;
                nodes.emplace_back(std::make_unique<TreeNode>(i));
                if (check != 0) {
                    nodes.back()->isCheck = true;
                    nodes.back()->checkVertices.emplace_back(i);
                }
            }
            j = nlohmann::json::array();
            for (std::size_t i = 0; i < k; i++) {
                std::size_t a = 0;
                std::size_t b = 0;
                std::cin >> a >> b;
                TreeNode::Union(nodes.at(a).get(), nodes.at(b).get());
                nlohmann::json st;
                st["a"] = a;
                st["b"] = b;
                for (auto& x : nodes) {
                    auto* root = TreeNode::Find(x.get());
                    st["root"].push_back(root->vertexIdx);
                }
                for (auto& x : nodes) { // as seen in the tree when x is a root
                    st["size"].push_back(x->clusterSize);
                    st["checks"].push_back(x->checkVertices);
                    nlohmann::json kids = nlohmann::json::array();
                    for (auto* ch : x->children) {
                        kids.push_back(ch->vertexIdx);
                    }
                    st["kids"].push_back(kids);
                }
                j.push_back(st);
            }
        }
        std::cout << j.dump() << std::endl;
    }
    return 0;
}
