// Test matrices, dense references and factory access for the demonstrations.
#pragma once
#include <omp.h>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <memory>
#include <random>
#include <set>
#include <vector>
#include <Eigen/Dense>
#include "solverfactory.hpp"
#include "solverops_base.hpp"
#include "blockmatrices.hpp"

using Dense = Eigen::MatrixXd;
using Vec = Eigen::VectorXd;

struct BM {
	int n, bs; bool row;
	std::vector<int> bp, ci, dg; std::vector<double> v;
	int dim() const { return n*bs; }
	double& at(int j, int r, int c) { return v[(size_t)j*bs*bs + (row ? r*bs+c : c*bs+r)]; }
	double at(int j, int r, int c) const { return v[(size_t)j*bs*bs + (row ? r*bs+c : c*bs+r)]; }
	Dense dense() const {
		Dense d = Dense::Zero(dim(), dim());
		for(int i = 0; i < n; i++) for(int j = bp[i]; j < bp[i+1]; j++)
			for(int r = 0; r < bs; r++) for(int c = 0; c < bs; c++) d(i*bs+r, ci[j]*bs+c) = at(j,r,c);
		return d;
	}
	blasted::SRMatrixStorage<const double,const int> view() const {
		return blasted::SRMatrixStorage<const double,const int>(bp.data(), ci.data(), v.data(), dg.data(),
			n > 0 ? &bp[1] : nullptr, n, (int)ci.size(), (int)ci.size(), bs);
	}
};

/// Random block matrix with a full diagonal, diagonally dominant; the pattern is unsymmetric unless asked for
inline BM randmat(int n, int bs, bool row, double dens, unsigned seed, double dom = 1.5, bool sym = false)
{
	std::mt19937 g(seed);
	std::uniform_real_distribution<double> u(-1, 1), q(0, 1);
	BM m; m.n = n; m.bs = bs; m.row = row; m.bp.push_back(0);
	std::vector<char> p(n*n);
	for(auto& x : p) x = q(g) < dens;
	if(sym) for(int i = 0; i < n; i++) for(int j = 0; j < i; j++) p[i*n+j] = p[j*n+i];
	for(int i = 0; i < n; i++) {
		for(int j = 0; j < n; j++) {
			if(i == j) m.dg.push_back((int)m.ci.size());
			if(i == j || p[i*n+j]) m.ci.push_back(j);
		}
		m.bp.push_back((int)m.ci.size());
	}
	m.v.resize(m.ci.size()*bs*bs);
	for(auto& x : m.v) x = u(g);
	for(int i = 0; i < n; i++) for(int r = 0; r < bs; r++) {
		double s = 0;
		for(int j = m.bp[i]; j < m.bp[i+1]; j++) for(int c = 0; c < bs; c++) s += std::abs(m.at(j,r,c));
		m.at(m.dg[i], r, r) = (dom + q(g))*s;
	}
	return m;
}

inline std::unique_ptr<blasted::SRPreconditioner<double,int>>
make(const BM& m, BlastedSolverType t, int nbuild, int napply, bool scale = false,
     blasted::FactInit fi = blasted::INIT_F_ORIGINAL, blasted::ApplyInit ai = blasted::INIT_A_ZERO, int chunk = 4, bool info = false)
{
	blasted::AsyncSolverSettings s;
	s.prectype = t; s.bs = m.bs; s.blockstorage = m.row ? blasted::RowMajor : blasted::ColMajor; s.relax = false;
	s.thread_chunk_size = chunk; s.scale = scale; s.nbuildsweeps = nbuild; s.napplysweeps = napply;
	s.fact_inittype = fi; s.apply_inittype = ai; s.compute_precinfo = info;
	blasted::SRFactory<double,int> f;
	return std::unique_ptr<blasted::SRPreconditioner<double,int>>(f.create_preconditioner(m.view(), s));
}

inline Vec randvec(int n, unsigned seed)
{
	std::mt19937 g(seed); std::uniform_real_distribution<double> u(-1, 1);
	Vec v(n); for(int i = 0; i < n; i++) v[i] = u(g);
	return v;
}

/// Block ILU(0): unit block lower L and upper U on the pattern of m, of the dense matrix a
inline void blockilu0(const BM& m, const Dense& a, Dense& L, Dense& U)
{
	const int n = m.n, b = m.bs;
	std::vector<std::set<int>> pat(n);
	for(int i = 0; i < n; i++) for(int j = m.bp[i]; j < m.bp[i+1]; j++) pat[i].insert(m.ci[j]);
	L = Dense::Identity(n*b, n*b); U = Dense::Zero(n*b, n*b);
	for(int i = 0; i < n; i++) for(int j : pat[i]) {
		Dense s = a.block(i*b, j*b, b, b);
		for(int k = 0; k < std::min(i,j); k++)
			if(pat[i].count(k) && pat[k].count(j)) s -= L.block(i*b,k*b,b,b)*U.block(k*b,j*b,b,b);
		if(i > j) L.block(i*b,j*b,b,b) = s*U.block(j*b,j*b,b,b).inverse();
		else U.block(i*b,j*b,b,b) = s;
	}
}

/// Symmetric scaling vector 1/sqrt|diag|
inline Vec scaling(const Dense& a) { return a.diagonal().cwiseAbs().cwiseSqrt().cwiseInverse(); }

/// What an exact ILU(0) application gives
inline Vec iluapply(const BM& m, const Vec& r, bool scale)
{
	Dense a = m.dense();
	Vec s = scale ? scaling(a) : Vec::Ones(a.rows());
	Dense as = s.asDiagonal()*a*s.asDiagonal();
	Dense L, U; blockilu0(m, as, L, U);
	Vec t = s.cwiseProduct(r);
	Vec y = L.triangularView<Eigen::UnitLower>().solve(t);
	Vec z = U.fullPivLu().solve(y);
	return s.cwiseProduct(z);
}

inline Vec apply(const blasted::SRPreconditioner<double,int>& p, const Vec& r)
{
	Vec z = Vec::Zero(r.size());
	p.apply(r.data(), z.data());
	return z;
}

inline bool close(const Vec& a, const Vec& b, double tol = 1e-10)
{
	return a.allFinite() && (a-b).norm() <= tol*(1 + b.norm());
}

/// Block parts of a dense matrix
inline Dense blockdiag(const BM& m, const Dense& a)
{
	Dense d = Dense::Zero(a.rows(), a.cols());
	for(int i = 0; i < m.n; i++) d.block(i*m.bs,i*m.bs,m.bs,m.bs) = a.block(i*m.bs,i*m.bs,m.bs,m.bs);
	return d;
}
inline Dense blocklower(const BM& m, const Dense& a)
{
	Dense d = Dense::Zero(a.rows(), a.cols());
	for(int i = 0; i < m.n; i++) d.block(i*m.bs,0,m.bs,i*m.bs) = a.block(i*m.bs,0,m.bs,i*m.bs);
	return d;
}

static int failures = 0;
#define CHECK(c, ...) do { if(!(c)) { failures++; printf("FAIL %s:%d %s : ", __FILE__, __LINE__, #c); printf(__VA_ARGS__); printf("\n"); } } while(0)
inline int done() { printf(failures ? "%d failures\n" : "ok\n", failures); return failures ? 1 : 0; }
