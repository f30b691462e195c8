// Symbolic ("uninterpreted") values, parsers and observers used by the
// generated witness translation units.  C++98 compatible.  Only the public,
// documented interface of boost::metaparse is named here.
#ifndef MPV_SYM_HPP
#define MPV_SYM_HPP

#include <boost/metaparse/accept.hpp>
#include <boost/metaparse/reject.hpp>
#include <boost/metaparse/is_error.hpp>
#include <boost/metaparse/get_result.hpp>
#include <boost/metaparse/get_remaining.hpp>
#include <boost/metaparse/get_position.hpp>
#include <boost/metaparse/get_message.hpp>
#include <boost/metaparse/get_line.hpp>
#include <boost/metaparse/get_col.hpp>
#include <boost/metaparse/get_prev_char.hpp>
#include <boost/metaparse/source_position.hpp>
#include <boost/mpl/int.hpp>
#include <boost/mpl/char.hpp>
#include <boost/mpl/bool.hpp>
#include <boost/mpl/begin_end.hpp>
#include <boost/mpl/next_prior.hpp>
#include <boost/mpl/deref.hpp>
#include <boost/mpl/apply_wrap.hpp>

namespace mpv
{
  namespace mp = boost::metaparse;
  namespace mpl = boost::mpl;

  template <class A, class B> struct same { static const bool value = false; };
  template <class A> struct same<A, A> { static const bool value = true; };

  // ---- uninterpreted symbols -------------------------------------------
  template <int Id, class A = void, class B = void, class C = void, class D = void>
  struct sym { typedef sym type; };
  // a symbol whose nested ::type is a different type: shows whether a value
  // that must be carried as it is gets evaluated
  template <int Id> struct lazysym { typedef sym<Id> type; };
  template <class T> struct delay { typedef T type; };
  // a metafunction call is a class derived from the value it denotes
  template <class T> struct der : T {};

  template <int Id> struct str { typedef str type; };   // opaque input

  // ---- positions ---------------------------------------------------------
  template <int L, int C, int K>
  struct pos
  {
    typedef mp::source_position<mpl::int_<L>, mpl::int_<C>, mpl::char_<(char)K> > type;
  };
  // position after applying symbolic parser Id at Pos: the numbers depend on
  // the whole history, so that two different histories are told apart
  template <int Id, class Pos>
  struct spos
  {
    static const int l = (int)(((unsigned long)mp::get_line<Pos>::type::value * 31ul + Id * 7ul + 3ul) % 1000003ul);
    static const int c = (int)(((unsigned long)mp::get_col<Pos>::type::value * 37ul + Id * 11ul + 5ul) % 1000003ul);
    typedef mp::source_position<mpl::int_<l>, mpl::int_<c>, mpl::char_<(char)('a' + (Id % 26))> > type;
  };
  template <class A, class B>
  struct pos_eq
  {
    static const bool value =
      (int)mp::get_line<A>::type::value == (int)mp::get_line<B>::type::value
      && (int)mp::get_col<A>::type::value == (int)mp::get_col<B>::type::value
      && (char)mp::get_prev_char<A>::type::value == (char)mp::get_prev_char<B>::type::value;
  };
  template <class A> struct pos_eq<A, A> { static const bool value = true; };
  // the position in one fixed representation: parsers have to cope with positions
  // that arrive unevaluated or are put together from other integral constants
  template <class Pos>
  struct cpos
  {
    static const int l = mp::get_line<Pos>::type::value;
    static const int c = mp::get_col<Pos>::type::value;
    static const char k = mp::get_prev_char<Pos>::type::value;
    typedef mp::source_position<mpl::int_<l>, mpl::int_<c>, mpl::char_<k> > type;
  };
  template <class Pos, int L, int C, int K>
  struct pos_is : pos_eq<Pos, typename pos<L, C, K>::type> {};

  typedef pos<17, 23, 'q'>::type P0;
  typedef pos<170, 230, 'r'>::type P1;

  // ---- symbolic parsers --------------------------------------------------
  template <int Id>
  struct acc
  {
    typedef acc type;
    template <class S, class Pos>
    struct apply :
      mp::accept<sym<Id, typename S::type, typename cpos<Pos>::type>, sym<10000 + Id, typename S::type, typename cpos<Pos>::type>, typename spos<Id, Pos>::type> {};
  };
  template <int Id, class S, class Pos> struct acc_res { typedef sym<Id, S, Pos> type; };
  template <int Id, class S, class Pos> struct acc_rem { typedef sym<10000 + Id, S, Pos> type; };
  template <int Id, class S, class Pos> struct acc_pos { typedef typename spos<Id, Pos>::type type; };

  template <int Id>
  struct rej
  {
    typedef rej type;
    template <class S, class Pos>
    struct apply : mp::reject<sym<20000 + Id, typename S::type, typename cpos<Pos>::type>, typename spos<5000 + Id, Pos>::type> {};
  };
  template <int Id, class S, class Pos> struct rej_msg { typedef sym<20000 + Id, S, Pos> type; };
  template <int Id, class S, class Pos> struct rej_pos { typedef typename spos<5000 + Id, Pos>::type type; };

  // fails with a given message at a given absolute position
  template <class Msg, class At>
  struct rej_at
  {
    typedef rej_at type;
    template <class S, class Pos> struct apply : mp::reject<Msg, At> {};
  };
  // fails where it was started
  template <class Msg>
  struct rej_here
  {
    typedef rej_here type;
    template <class S, class Pos> struct apply : mp::reject<Msg, Pos> {};
  };
  // must never be applied
  template <class S> struct must_not_be_instantiated;
  struct poison
  {
    typedef poison type;
    template <class S, class Pos>
    struct apply : must_not_be_instantiated<S> { typedef typename must_not_be_instantiated<S>::type x; };
  };
  struct poison1
  {
    typedef poison1 type;
    template <class A>
    struct apply : must_not_be_instantiated<A> { typedef typename must_not_be_instantiated<A>::type x; };
  };

  // ---- scripted input: "N more items can be parsed" -----------------------
  // item<Id, Delta, Max>: consumes one item of in<K>, K >= 1; on in<0> fails,
  // Delta == 0: exactly where it started, otherwise at another position
  template <int K> struct in { typedef in type; };
  template <int Id, int ErrKind>
  struct item
  {
    typedef item type;
    template <class S, class Pos> struct impl;
    template <class Pos>
    struct impl<in<0>, Pos>
    {
      // error position relative to the start of this attempt
      static const int l = mp::get_line<Pos>::type::value;
      static const int c = mp::get_col<Pos>::type::value;
      static const int k = mp::get_prev_char<Pos>::type::value;
      typedef mp::source_position<
        mpl::int_<l + (ErrKind == 1 ? 1 : ErrKind == 4 ? -1 : 0)>,
        mpl::int_<c + (ErrKind == 2 ? 1 : ErrKind == 5 ? -1 : 0)>,
        mpl::char_<(char)(k + (ErrKind == 3 ? 1 : ErrKind == 6 ? -1 : 0))>
      > epos;
      typedef mp::reject<sym<30000 + Id, in<0>, typename cpos<Pos>::type>, epos> out;
    };
    template <int K, class Pos>
    struct impl<in<K>, Pos>
    {
      typedef mp::accept<sym<Id, in<K>, typename cpos<Pos>::type>, in<K - 1>, typename spos<Id, Pos>::type> out;
    };
    template <class S, class Pos> struct apply : impl<typename S::type, Pos>::out {};
  };

  // ---- observers ---------------------------------------------------------
  template <class O, bool Err, class R, class Rem, class Pos> struct accepts_ { static const bool value = false; };
  template <class O, class R, class Rem, class Pos>
  struct accepts_<O, false, R, Rem, Pos>
  {
    static const bool value =
      same<typename mp::get_result<O>::type, R>::value
      && same<typename mp::get_remaining<O>::type, Rem>::value
      && pos_eq<typename mp::get_position<O>::type, Pos>::value;
  };
  template <class O, class R, class Rem, class Pos>
  struct accepts : accepts_<O, mp::is_error<O>::type::value, R, Rem, Pos> {};

  template <class O, bool Err, class Msg, class Pos> struct rejects_ { static const bool value = false; };
  template <class O, class Msg, class Pos>
  struct rejects_<O, true, Msg, Pos>
  {
    static const bool value =
      same<typename mp::get_message<O>::type, Msg>::value
      && pos_eq<typename mp::get_position<O>::type, Pos>::value;
  };
  template <class O, class Msg, class Pos>
  struct rejects : rejects_<O, mp::is_error<O>::type::value, Msg, Pos> {};

  // fails at the position, message not constrained
  template <class O, bool Err, class Pos> struct rejects_at_ { static const bool value = false; };
  template <class O, class Pos>
  struct rejects_at_<O, true, Pos>
  { static const bool value = pos_eq<typename mp::get_position<O>::type, Pos>::value; };
  template <class O, class Pos>
  struct rejects_at : rejects_at_<O, mp::is_error<O>::type::value, Pos> {};

  // success with remaining input and position, result not constrained
  template <class O, bool Err, class Rem, class Pos> struct ends_at_ { static const bool value = false; };
  template <class O, class Rem, class Pos>
  struct ends_at_<O, false, Rem, Pos>
  {
    static const bool value =
      same<typename mp::get_remaining<O>::type, Rem>::value
      && pos_eq<typename mp::get_position<O>::type, Pos>::value;
  };
  template <class O, class Rem, class Pos>
  struct ends_at : ends_at_<O, mp::is_error<O>::type::value, Rem, Pos> {};

  // result by value
  template <class O, bool Err, long V> struct result_value_ { static const bool value = false; };
  template <class O, long V>
  struct result_value_<O, false, V>
  { static const bool value = (long)mp::get_result<O>::type::type::value == V; };
  template <class O, long V>
  struct result_value : result_value_<O, mp::is_error<O>::type::value, V> {};

  // ---- type lists and sequences -------------------------------------------
  struct nil { typedef nil type; };
  template <class H, class T> struct cons { typedef cons type; };
  template <class A, class B> struct same_or_valeq : same<A, B> {};

  template <class I, class E, class L> struct seq_is_ { static const bool value = false; };
  template <class E> struct seq_is_<E, E, nil> { static const bool value = true; };
  template <class I, class E> struct seq_is_<I, E, nil> { static const bool value = false; };
  template <class E, class H, class T> struct seq_is_<E, E, cons<H, T> > { static const bool value = false; };
  template <bool Go, class I, class E, class T> struct seq_step { static const bool value = false; };
  template <class I, class E, class T>
  struct seq_step<true, I, E, T> : seq_is_<typename mpl::next<I>::type, E, T> {};
  template <class I, class E, class H, class T>
  struct seq_is_<I, E, cons<H, T> > :
    seq_step<same<typename mpl::deref<I>::type, H>::value, I, E, T> {};
  // the MPL sequence Seq consists of exactly the types of list L, in order
  template <class Seq, class L>
  struct seq_is : seq_is_<typename mpl::begin<Seq>::type, typename mpl::end<Seq>::type, L> {};

  template <class O, bool Err, class L, class Rem, class Pos> struct accepts_seq_ { static const bool value = false; };
  template <class O, class L, class Rem, class Pos>
  struct accepts_seq_<O, false, L, Rem, Pos>
  {
    static const bool value =
      seq_is<typename mp::get_result<O>::type, L>::value
      && same<typename mp::get_remaining<O>::type, Rem>::value
      && pos_eq<typename mp::get_position<O>::type, Pos>::value;
  };
  template <class O, class L, class Rem, class Pos>
  struct accepts_seq : accepts_seq_<O, mp::is_error<O>::type::value, L, Rem, Pos> {};

  // ---- symbolic operations -------------------------------------------------
  template <int Id>
  struct op2
  {
    typedef op2 type;
    template <class A, class B> struct apply { typedef sym<40000 + Id, A, B> type; };
  };
  template <int Id>
  struct op1
  {
    typedef op1 type;
    template <class A> struct apply { typedef sym<50000 + Id, A> type; };
  };
  template <int Id, bool V>
  struct pred
  {
    typedef pred type;
    template <class A> struct apply : mpl::bool_<V> {};
  };

  // apply a parser
  template <class P, class S, class Pos>
  struct run : P::template apply<S, Pos>::type {};
  template <class P, class S, class Pos>
  struct out { typedef typename P::template apply<S, Pos>::type type; };
}

#endif
