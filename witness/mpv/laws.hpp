// Combinator laws, each generic in an environment E of arbitrary types:
//   S0,P0           input and position the combinator is started with
//   Ri,Si,Pi        result, remaining input and position of the i-th success
//   M,Q             message and position of a failure (Q differs from P0..P3)
//   T,U             free values (states, defaults, messages given by the user)
// The parsers used are partial: they answer only when applied to exactly the
// expected input and position, so a law also checks what is passed on.
#ifndef MPV_LAWS_HPP
#define MPV_LAWS_HPP
#include <mpv/sym.hpp>
namespace mpv
{
  template <class S0_, class P0_, class R1_, class S1_, class P1_, class R2_, class S2_, class P2_,
            class R3_, class S3_, class P3_, class M_, class Q_, class T_, class U_>
  struct env
  {
    typedef S0_ S0; typedef P0_ P0; typedef R1_ R1; typedef S1_ S1; typedef P1_ P1;
    typedef R2_ R2; typedef S2_ S2; typedef P2_ P2; typedef R3_ R3; typedef S3_ S3; typedef P3_ P3;
    typedef M_ M; typedef Q_ Q; typedef T_ T; typedef U_ U;
  };
  struct nowhere
  {
    typedef nowhere type;
    template <class S, class P> struct apply : mp::accept<sym<99999>, sym<99998>, P1> {};
  };
  template <bool> struct at_sel
  { template <class Out, class Next, class S, class P> struct go : Out {}; };
  template <> struct at_sel<false>
  { template <class Out, class Next, class S, class P> struct go : Next::template apply<S, P> {}; };
  template <class S, class P, class Out, class Next = nowhere>
  struct at
  {
    typedef at type;
    template <class S2, class P2>
    struct apply : at_sel<same<S, S2>::value && pos_eq<P, P2>::value>::template go<Out, Next, S2, P2> {};
  };
  template <class T> struct const1 { typedef const1 type; template <class A> struct apply { typedef T type; }; };
  template <class T> struct const2 { typedef const2 type; template <class A, class B> struct apply { typedef T type; }; };
  template <class T> struct is_same_f { typedef is_same_f type; template <class A> struct apply : mpl::bool_<same<A, T>::value> {}; };
  template <class T> struct differs_f { typedef differs_f type; template <class A> struct apply : mpl::bool_<!same<A, T>::value> {}; };
  template <class A, class B, class C> struct tm3_;
  template <class A, class B, class C> struct tm3 { typedef tm3_<A, B, C> type; };

#define MPV_ENV \
  typedef typename E::S0 S0; typedef typename E::P0 P0; typedef typename E::R1 R1; typedef typename E::S1 S1; typedef typename E::P1 P1; \
  typedef typename E::R2 R2; typedef typename E::S2 S2; typedef typename E::P2 P2; typedef typename E::R3 R3; typedef typename E::S3 S3; \
  typedef typename E::P3 P3; typedef typename E::M M; typedef typename E::Q Q; typedef typename E::T T; typedef typename E::U U; \
  typedef mp::reject<M, Q> F; \
  typedef at<S0, P0, mp::accept<R1, S1, P1> > p1; typedef at<S1, P1, mp::accept<R2, S2, P2> > p2; typedef at<S2, P2, mp::accept<R3, S3, P3> > p3; \
  typedef at<S0, P0, F> f1; typedef at<S1, P1, F> f2; typedef at<S2, P2, F> f3; \
  typedef at<S0, P0, mp::accept<R1, S1, P1>, at<S1, P1, mp::accept<R2, S2, P2>, at<S2, P2, F> > > two; /* two matches, then F */ \
  typedef at<S0, P0, mp::accept<R1, S1, P1>, at<S1, P1, F> > one; \
  typedef at<S0, P0, mp::accept<R1, S1, P1>, at<S1, P1, mp::accept<R2, S2, P2>, at<S2, P2, mp::reject<M, P2> > > > two_here; \
  typedef at<S0, P0, mp::reject<M, P0> > zero_here; \
  typedef at<S1, P1, mp::accept<R2, S2, P2>, at<S2, P2, F> > later1; \
  typedef at<S1, P1, F> later0;

}
#endif
