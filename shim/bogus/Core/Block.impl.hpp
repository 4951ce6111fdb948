// Stand-in for the block matrices of So-bogus (not installable here): dense storage, same API subset.
#ifndef SHIM_BOGUS_BLOCK
#define SHIM_BOGUS_BLOCK
#include <Eigen/Core>
#include <Eigen/Dense>
#include <iostream>
#include <map>
#include <vector>

namespace bogus
{

template<int DefaultRows, int DefaultCols>
class ShimBlockMatrix
{
  unsigned m_rb = 0, m_cb = 0;
  int m_br = DefaultRows, m_bc = DefaultCols;
  std::map<std::pair<unsigned, unsigned>, Eigen::MatrixXd> m_blocks;
  Eigen::MatrixXd m_d;
public:
  void reserve( unsigned ) {}
  void setRows( unsigned n, int size = DefaultRows ) { m_rb = n; m_br = size; }
  void setCols( unsigned n, int size = DefaultCols ) { m_cb = n; m_bc = size; }
  Eigen::MatrixXd& insertBack( unsigned i, unsigned j ) { return m_blocks[ std::make_pair( i, j ) ]; }
  Eigen::MatrixXd& insert( unsigned i, unsigned j ) { return m_blocks[ std::make_pair( i, j ) ]; }
  void finalize()
  {
    m_d = Eigen::MatrixXd::Zero( long( m_rb ) * m_br, long( m_cb ) * m_bc );
    for( const auto& b : m_blocks ) m_d.block( long( b.first.first ) * m_br, long( b.first.second ) * m_bc, m_br, m_bc ) = b.second;
  }
  void cacheTranspose() {}
  void setDense( const Eigen::MatrixXd& d, int br, int bc ) { m_d = d; m_br = br; m_bc = bc; m_rb = unsigned( d.rows() / br ); m_cb = unsigned( d.cols() / bc ); }
  const Eigen::MatrixXd& dense() const { return m_d; }
  unsigned rowsOfBlocks() const { return m_rb; }
  unsigned colsOfBlocks() const { return m_cb; }
  long rows() const { return m_d.rows(); }
  long cols() const { return m_d.cols(); }
  Eigen::MatrixXd transpose() const { return m_d.transpose(); }
  template<class D> Eigen::VectorXd operator*( const Eigen::MatrixBase<D>& v ) const { return m_d * v; }
};

}
#endif
