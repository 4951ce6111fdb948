// Force-included: Eigen's own bounds/shape assertions stay on in the release (NDEBUG) build, so an
// out-of-range access becomes a visible death instead of silent corruption.
#ifndef SHIM_EIGEN_CHECK_H
#define SHIM_EIGEN_CHECK_H
#ifdef __cplusplus
extern "C" void abort() noexcept( true ) __attribute__( ( __noreturn__ ) );
#define eigen_assert( x ) ( ( x ) ? static_cast<void>( 0 ) : ::abort() )
#endif
#endif
