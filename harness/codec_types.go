// Code generated by tools/gentypes.py; DO NOT EDIT.

package main

import "github.com/alxarch/njson"

type S__n_ string

func (x *S__n_) UnmarshalNodeJSON(b njson.Node) error {
	s, err := uNode(b)
	if err == nil {
		*x = S__n_(s)
	}
	return err
}

type S__j_ string

func (x *S__j_) UnmarshalJSON(b []byte) error {
	s, err := uJSON(b)
	if err == nil {
		*x = S__j_(s)
	}
	return err
}

type S__t_ string

func (x *S__t_) UnmarshalText(b []byte) error {
	s, err := uText(b)
	if err == nil {
		*x = S__t_(s)
	}
	return err
}

type S__nj_ string

func (x *S__nj_) UnmarshalNodeJSON(b njson.Node) error {
	s, err := uNode(b)
	if err == nil {
		*x = S__nj_(s)
	}
	return err
}
func (x *S__nj_) UnmarshalJSON(b []byte) error {
	s, err := uJSON(b)
	if err == nil {
		*x = S__nj_(s)
	}
	return err
}

type S__jt_ string

func (x *S__jt_) UnmarshalJSON(b []byte) error {
	s, err := uJSON(b)
	if err == nil {
		*x = S__jt_(s)
	}
	return err
}
func (x *S__jt_) UnmarshalText(b []byte) error {
	s, err := uText(b)
	if err == nil {
		*x = S__jt_(s)
	}
	return err
}

type S_av__ string

func (x S_av__) AppendJSON(out []byte) ([]byte, error) { return mAppend(out, string(x)) }

type S_av_n_ string

func (x S_av_n_) AppendJSON(out []byte) ([]byte, error) { return mAppend(out, string(x)) }
func (x *S_av_n_) UnmarshalNodeJSON(b njson.Node) error {
	s, err := uNode(b)
	if err == nil {
		*x = S_av_n_(s)
	}
	return err
}

type S_av_j_ string

func (x S_av_j_) AppendJSON(out []byte) ([]byte, error) { return mAppend(out, string(x)) }
func (x *S_av_j_) UnmarshalJSON(b []byte) error {
	s, err := uJSON(b)
	if err == nil {
		*x = S_av_j_(s)
	}
	return err
}

type S_av_t_ string

func (x S_av_t_) AppendJSON(out []byte) ([]byte, error) { return mAppend(out, string(x)) }
func (x *S_av_t_) UnmarshalText(b []byte) error {
	s, err := uText(b)
	if err == nil {
		*x = S_av_t_(s)
	}
	return err
}

type S_av_nj_ string

func (x S_av_nj_) AppendJSON(out []byte) ([]byte, error) { return mAppend(out, string(x)) }
func (x *S_av_nj_) UnmarshalNodeJSON(b njson.Node) error {
	s, err := uNode(b)
	if err == nil {
		*x = S_av_nj_(s)
	}
	return err
}
func (x *S_av_nj_) UnmarshalJSON(b []byte) error {
	s, err := uJSON(b)
	if err == nil {
		*x = S_av_nj_(s)
	}
	return err
}

type S_av_jt_ string

func (x S_av_jt_) AppendJSON(out []byte) ([]byte, error) { return mAppend(out, string(x)) }
func (x *S_av_jt_) UnmarshalJSON(b []byte) error {
	s, err := uJSON(b)
	if err == nil {
		*x = S_av_jt_(s)
	}
	return err
}
func (x *S_av_jt_) UnmarshalText(b []byte) error {
	s, err := uText(b)
	if err == nil {
		*x = S_av_jt_(s)
	}
	return err
}

type S_ap__ string

func (x *S_ap__) AppendJSON(out []byte) ([]byte, error) { return mAppend(out, string(*x)) }

type S_ap_n_ string

func (x *S_ap_n_) AppendJSON(out []byte) ([]byte, error) { return mAppend(out, string(*x)) }
func (x *S_ap_n_) UnmarshalNodeJSON(b njson.Node) error {
	s, err := uNode(b)
	if err == nil {
		*x = S_ap_n_(s)
	}
	return err
}

type S_ap_j_ string

func (x *S_ap_j_) AppendJSON(out []byte) ([]byte, error) { return mAppend(out, string(*x)) }
func (x *S_ap_j_) UnmarshalJSON(b []byte) error {
	s, err := uJSON(b)
	if err == nil {
		*x = S_ap_j_(s)
	}
	return err
}

type S_ap_t_ string

func (x *S_ap_t_) AppendJSON(out []byte) ([]byte, error) { return mAppend(out, string(*x)) }
func (x *S_ap_t_) UnmarshalText(b []byte) error {
	s, err := uText(b)
	if err == nil {
		*x = S_ap_t_(s)
	}
	return err
}

type S_ap_nj_ string

func (x *S_ap_nj_) AppendJSON(out []byte) ([]byte, error) { return mAppend(out, string(*x)) }
func (x *S_ap_nj_) UnmarshalNodeJSON(b njson.Node) error {
	s, err := uNode(b)
	if err == nil {
		*x = S_ap_nj_(s)
	}
	return err
}
func (x *S_ap_nj_) UnmarshalJSON(b []byte) error {
	s, err := uJSON(b)
	if err == nil {
		*x = S_ap_nj_(s)
	}
	return err
}

type S_ap_jt_ string

func (x *S_ap_jt_) AppendJSON(out []byte) ([]byte, error) { return mAppend(out, string(*x)) }
func (x *S_ap_jt_) UnmarshalJSON(b []byte) error {
	s, err := uJSON(b)
	if err == nil {
		*x = S_ap_jt_(s)
	}
	return err
}
func (x *S_ap_jt_) UnmarshalText(b []byte) error {
	s, err := uText(b)
	if err == nil {
		*x = S_ap_jt_(s)
	}
	return err
}

type S_jv__ string

func (x S_jv__) MarshalJSON() ([]byte, error) { return mJSON(string(x)) }

type S_jv_n_ string

func (x S_jv_n_) MarshalJSON() ([]byte, error) { return mJSON(string(x)) }
func (x *S_jv_n_) UnmarshalNodeJSON(b njson.Node) error {
	s, err := uNode(b)
	if err == nil {
		*x = S_jv_n_(s)
	}
	return err
}

type S_jv_j_ string

func (x S_jv_j_) MarshalJSON() ([]byte, error) { return mJSON(string(x)) }
func (x *S_jv_j_) UnmarshalJSON(b []byte) error {
	s, err := uJSON(b)
	if err == nil {
		*x = S_jv_j_(s)
	}
	return err
}

type S_jv_t_ string

func (x S_jv_t_) MarshalJSON() ([]byte, error) { return mJSON(string(x)) }
func (x *S_jv_t_) UnmarshalText(b []byte) error {
	s, err := uText(b)
	if err == nil {
		*x = S_jv_t_(s)
	}
	return err
}

type S_jv_nj_ string

func (x S_jv_nj_) MarshalJSON() ([]byte, error) { return mJSON(string(x)) }
func (x *S_jv_nj_) UnmarshalNodeJSON(b njson.Node) error {
	s, err := uNode(b)
	if err == nil {
		*x = S_jv_nj_(s)
	}
	return err
}
func (x *S_jv_nj_) UnmarshalJSON(b []byte) error {
	s, err := uJSON(b)
	if err == nil {
		*x = S_jv_nj_(s)
	}
	return err
}

type S_jv_jt_ string

func (x S_jv_jt_) MarshalJSON() ([]byte, error) { return mJSON(string(x)) }
func (x *S_jv_jt_) UnmarshalJSON(b []byte) error {
	s, err := uJSON(b)
	if err == nil {
		*x = S_jv_jt_(s)
	}
	return err
}
func (x *S_jv_jt_) UnmarshalText(b []byte) error {
	s, err := uText(b)
	if err == nil {
		*x = S_jv_jt_(s)
	}
	return err
}

type S_jp__ string

func (x *S_jp__) MarshalJSON() ([]byte, error) { return mJSON(string(*x)) }

type S_jp_n_ string

func (x *S_jp_n_) MarshalJSON() ([]byte, error) { return mJSON(string(*x)) }
func (x *S_jp_n_) UnmarshalNodeJSON(b njson.Node) error {
	s, err := uNode(b)
	if err == nil {
		*x = S_jp_n_(s)
	}
	return err
}

type S_jp_j_ string

func (x *S_jp_j_) MarshalJSON() ([]byte, error) { return mJSON(string(*x)) }
func (x *S_jp_j_) UnmarshalJSON(b []byte) error {
	s, err := uJSON(b)
	if err == nil {
		*x = S_jp_j_(s)
	}
	return err
}

type S_jp_t_ string

func (x *S_jp_t_) MarshalJSON() ([]byte, error) { return mJSON(string(*x)) }
func (x *S_jp_t_) UnmarshalText(b []byte) error {
	s, err := uText(b)
	if err == nil {
		*x = S_jp_t_(s)
	}
	return err
}

type S_jp_nj_ string

func (x *S_jp_nj_) MarshalJSON() ([]byte, error) { return mJSON(string(*x)) }
func (x *S_jp_nj_) UnmarshalNodeJSON(b njson.Node) error {
	s, err := uNode(b)
	if err == nil {
		*x = S_jp_nj_(s)
	}
	return err
}
func (x *S_jp_nj_) UnmarshalJSON(b []byte) error {
	s, err := uJSON(b)
	if err == nil {
		*x = S_jp_nj_(s)
	}
	return err
}

type S_jp_jt_ string

func (x *S_jp_jt_) MarshalJSON() ([]byte, error) { return mJSON(string(*x)) }
func (x *S_jp_jt_) UnmarshalJSON(b []byte) error {
	s, err := uJSON(b)
	if err == nil {
		*x = S_jp_jt_(s)
	}
	return err
}
func (x *S_jp_jt_) UnmarshalText(b []byte) error {
	s, err := uText(b)
	if err == nil {
		*x = S_jp_jt_(s)
	}
	return err
}

type S_tv__ string

func (x S_tv__) MarshalText() ([]byte, error) { return mText(string(x)) }

type S_tv_n_ string

func (x S_tv_n_) MarshalText() ([]byte, error) { return mText(string(x)) }
func (x *S_tv_n_) UnmarshalNodeJSON(b njson.Node) error {
	s, err := uNode(b)
	if err == nil {
		*x = S_tv_n_(s)
	}
	return err
}

type S_tv_j_ string

func (x S_tv_j_) MarshalText() ([]byte, error) { return mText(string(x)) }
func (x *S_tv_j_) UnmarshalJSON(b []byte) error {
	s, err := uJSON(b)
	if err == nil {
		*x = S_tv_j_(s)
	}
	return err
}

type S_tv_t_ string

func (x S_tv_t_) MarshalText() ([]byte, error) { return mText(string(x)) }
func (x *S_tv_t_) UnmarshalText(b []byte) error {
	s, err := uText(b)
	if err == nil {
		*x = S_tv_t_(s)
	}
	return err
}

type S_tv_nj_ string

func (x S_tv_nj_) MarshalText() ([]byte, error) { return mText(string(x)) }
func (x *S_tv_nj_) UnmarshalNodeJSON(b njson.Node) error {
	s, err := uNode(b)
	if err == nil {
		*x = S_tv_nj_(s)
	}
	return err
}
func (x *S_tv_nj_) UnmarshalJSON(b []byte) error {
	s, err := uJSON(b)
	if err == nil {
		*x = S_tv_nj_(s)
	}
	return err
}

type S_tv_jt_ string

func (x S_tv_jt_) MarshalText() ([]byte, error) { return mText(string(x)) }
func (x *S_tv_jt_) UnmarshalJSON(b []byte) error {
	s, err := uJSON(b)
	if err == nil {
		*x = S_tv_jt_(s)
	}
	return err
}
func (x *S_tv_jt_) UnmarshalText(b []byte) error {
	s, err := uText(b)
	if err == nil {
		*x = S_tv_jt_(s)
	}
	return err
}

type S_tp__ string

func (x *S_tp__) MarshalText() ([]byte, error) { return mText(string(*x)) }

type S_tp_n_ string

func (x *S_tp_n_) MarshalText() ([]byte, error) { return mText(string(*x)) }
func (x *S_tp_n_) UnmarshalNodeJSON(b njson.Node) error {
	s, err := uNode(b)
	if err == nil {
		*x = S_tp_n_(s)
	}
	return err
}

type S_tp_j_ string

func (x *S_tp_j_) MarshalText() ([]byte, error) { return mText(string(*x)) }
func (x *S_tp_j_) UnmarshalJSON(b []byte) error {
	s, err := uJSON(b)
	if err == nil {
		*x = S_tp_j_(s)
	}
	return err
}

type S_tp_t_ string

func (x *S_tp_t_) MarshalText() ([]byte, error) { return mText(string(*x)) }
func (x *S_tp_t_) UnmarshalText(b []byte) error {
	s, err := uText(b)
	if err == nil {
		*x = S_tp_t_(s)
	}
	return err
}

type S_tp_nj_ string

func (x *S_tp_nj_) MarshalText() ([]byte, error) { return mText(string(*x)) }
func (x *S_tp_nj_) UnmarshalNodeJSON(b njson.Node) error {
	s, err := uNode(b)
	if err == nil {
		*x = S_tp_nj_(s)
	}
	return err
}
func (x *S_tp_nj_) UnmarshalJSON(b []byte) error {
	s, err := uJSON(b)
	if err == nil {
		*x = S_tp_nj_(s)
	}
	return err
}

type S_tp_jt_ string

func (x *S_tp_jt_) MarshalText() ([]byte, error) { return mText(string(*x)) }
func (x *S_tp_jt_) UnmarshalJSON(b []byte) error {
	s, err := uJSON(b)
	if err == nil {
		*x = S_tp_jt_(s)
	}
	return err
}
func (x *S_tp_jt_) UnmarshalText(b []byte) error {
	s, err := uText(b)
	if err == nil {
		*x = S_tp_jt_(s)
	}
	return err
}

type S_avjv__ string

func (x S_avjv__) AppendJSON(out []byte) ([]byte, error) { return mAppend(out, string(x)) }
func (x S_avjv__) MarshalJSON() ([]byte, error)          { return mJSON(string(x)) }

type S_avjv_n_ string

func (x S_avjv_n_) AppendJSON(out []byte) ([]byte, error) { return mAppend(out, string(x)) }
func (x S_avjv_n_) MarshalJSON() ([]byte, error)          { return mJSON(string(x)) }
func (x *S_avjv_n_) UnmarshalNodeJSON(b njson.Node) error {
	s, err := uNode(b)
	if err == nil {
		*x = S_avjv_n_(s)
	}
	return err
}

type S_avjv_j_ string

func (x S_avjv_j_) AppendJSON(out []byte) ([]byte, error) { return mAppend(out, string(x)) }
func (x S_avjv_j_) MarshalJSON() ([]byte, error)          { return mJSON(string(x)) }
func (x *S_avjv_j_) UnmarshalJSON(b []byte) error {
	s, err := uJSON(b)
	if err == nil {
		*x = S_avjv_j_(s)
	}
	return err
}

type S_avjv_t_ string

func (x S_avjv_t_) AppendJSON(out []byte) ([]byte, error) { return mAppend(out, string(x)) }
func (x S_avjv_t_) MarshalJSON() ([]byte, error)          { return mJSON(string(x)) }
func (x *S_avjv_t_) UnmarshalText(b []byte) error {
	s, err := uText(b)
	if err == nil {
		*x = S_avjv_t_(s)
	}
	return err
}

type S_avjv_nj_ string

func (x S_avjv_nj_) AppendJSON(out []byte) ([]byte, error) { return mAppend(out, string(x)) }
func (x S_avjv_nj_) MarshalJSON() ([]byte, error)          { return mJSON(string(x)) }
func (x *S_avjv_nj_) UnmarshalNodeJSON(b njson.Node) error {
	s, err := uNode(b)
	if err == nil {
		*x = S_avjv_nj_(s)
	}
	return err
}
func (x *S_avjv_nj_) UnmarshalJSON(b []byte) error {
	s, err := uJSON(b)
	if err == nil {
		*x = S_avjv_nj_(s)
	}
	return err
}

type S_avjv_jt_ string

func (x S_avjv_jt_) AppendJSON(out []byte) ([]byte, error) { return mAppend(out, string(x)) }
func (x S_avjv_jt_) MarshalJSON() ([]byte, error)          { return mJSON(string(x)) }
func (x *S_avjv_jt_) UnmarshalJSON(b []byte) error {
	s, err := uJSON(b)
	if err == nil {
		*x = S_avjv_jt_(s)
	}
	return err
}
func (x *S_avjv_jt_) UnmarshalText(b []byte) error {
	s, err := uText(b)
	if err == nil {
		*x = S_avjv_jt_(s)
	}
	return err
}

type S_apjp__ string

func (x *S_apjp__) AppendJSON(out []byte) ([]byte, error) { return mAppend(out, string(*x)) }
func (x *S_apjp__) MarshalJSON() ([]byte, error)          { return mJSON(string(*x)) }

type S_apjp_n_ string

func (x *S_apjp_n_) AppendJSON(out []byte) ([]byte, error) { return mAppend(out, string(*x)) }
func (x *S_apjp_n_) MarshalJSON() ([]byte, error)          { return mJSON(string(*x)) }
func (x *S_apjp_n_) UnmarshalNodeJSON(b njson.Node) error {
	s, err := uNode(b)
	if err == nil {
		*x = S_apjp_n_(s)
	}
	return err
}

type S_apjp_j_ string

func (x *S_apjp_j_) AppendJSON(out []byte) ([]byte, error) { return mAppend(out, string(*x)) }
func (x *S_apjp_j_) MarshalJSON() ([]byte, error)          { return mJSON(string(*x)) }
func (x *S_apjp_j_) UnmarshalJSON(b []byte) error {
	s, err := uJSON(b)
	if err == nil {
		*x = S_apjp_j_(s)
	}
	return err
}

type S_apjp_t_ string

func (x *S_apjp_t_) AppendJSON(out []byte) ([]byte, error) { return mAppend(out, string(*x)) }
func (x *S_apjp_t_) MarshalJSON() ([]byte, error)          { return mJSON(string(*x)) }
func (x *S_apjp_t_) UnmarshalText(b []byte) error {
	s, err := uText(b)
	if err == nil {
		*x = S_apjp_t_(s)
	}
	return err
}

type S_apjp_nj_ string

func (x *S_apjp_nj_) AppendJSON(out []byte) ([]byte, error) { return mAppend(out, string(*x)) }
func (x *S_apjp_nj_) MarshalJSON() ([]byte, error)          { return mJSON(string(*x)) }
func (x *S_apjp_nj_) UnmarshalNodeJSON(b njson.Node) error {
	s, err := uNode(b)
	if err == nil {
		*x = S_apjp_nj_(s)
	}
	return err
}
func (x *S_apjp_nj_) UnmarshalJSON(b []byte) error {
	s, err := uJSON(b)
	if err == nil {
		*x = S_apjp_nj_(s)
	}
	return err
}

type S_apjp_jt_ string

func (x *S_apjp_jt_) AppendJSON(out []byte) ([]byte, error) { return mAppend(out, string(*x)) }
func (x *S_apjp_jt_) MarshalJSON() ([]byte, error)          { return mJSON(string(*x)) }
func (x *S_apjp_jt_) UnmarshalJSON(b []byte) error {
	s, err := uJSON(b)
	if err == nil {
		*x = S_apjp_jt_(s)
	}
	return err
}
func (x *S_apjp_jt_) UnmarshalText(b []byte) error {
	s, err := uText(b)
	if err == nil {
		*x = S_apjp_jt_(s)
	}
	return err
}

type S_jvtv__ string

func (x S_jvtv__) MarshalJSON() ([]byte, error) { return mJSON(string(x)) }
func (x S_jvtv__) MarshalText() ([]byte, error) { return mText(string(x)) }

type S_jvtv_n_ string

func (x S_jvtv_n_) MarshalJSON() ([]byte, error) { return mJSON(string(x)) }
func (x S_jvtv_n_) MarshalText() ([]byte, error) { return mText(string(x)) }
func (x *S_jvtv_n_) UnmarshalNodeJSON(b njson.Node) error {
	s, err := uNode(b)
	if err == nil {
		*x = S_jvtv_n_(s)
	}
	return err
}

type S_jvtv_j_ string

func (x S_jvtv_j_) MarshalJSON() ([]byte, error) { return mJSON(string(x)) }
func (x S_jvtv_j_) MarshalText() ([]byte, error) { return mText(string(x)) }
func (x *S_jvtv_j_) UnmarshalJSON(b []byte) error {
	s, err := uJSON(b)
	if err == nil {
		*x = S_jvtv_j_(s)
	}
	return err
}

type S_jvtv_t_ string

func (x S_jvtv_t_) MarshalJSON() ([]byte, error) { return mJSON(string(x)) }
func (x S_jvtv_t_) MarshalText() ([]byte, error) { return mText(string(x)) }
func (x *S_jvtv_t_) UnmarshalText(b []byte) error {
	s, err := uText(b)
	if err == nil {
		*x = S_jvtv_t_(s)
	}
	return err
}

type S_jvtv_nj_ string

func (x S_jvtv_nj_) MarshalJSON() ([]byte, error) { return mJSON(string(x)) }
func (x S_jvtv_nj_) MarshalText() ([]byte, error) { return mText(string(x)) }
func (x *S_jvtv_nj_) UnmarshalNodeJSON(b njson.Node) error {
	s, err := uNode(b)
	if err == nil {
		*x = S_jvtv_nj_(s)
	}
	return err
}
func (x *S_jvtv_nj_) UnmarshalJSON(b []byte) error {
	s, err := uJSON(b)
	if err == nil {
		*x = S_jvtv_nj_(s)
	}
	return err
}

type S_jvtv_jt_ string

func (x S_jvtv_jt_) MarshalJSON() ([]byte, error) { return mJSON(string(x)) }
func (x S_jvtv_jt_) MarshalText() ([]byte, error) { return mText(string(x)) }
func (x *S_jvtv_jt_) UnmarshalJSON(b []byte) error {
	s, err := uJSON(b)
	if err == nil {
		*x = S_jvtv_jt_(s)
	}
	return err
}
func (x *S_jvtv_jt_) UnmarshalText(b []byte) error {
	s, err := uText(b)
	if err == nil {
		*x = S_jvtv_jt_(s)
	}
	return err
}

type S_jptp__ string

func (x *S_jptp__) MarshalJSON() ([]byte, error) { return mJSON(string(*x)) }
func (x *S_jptp__) MarshalText() ([]byte, error) { return mText(string(*x)) }

type S_jptp_n_ string

func (x *S_jptp_n_) MarshalJSON() ([]byte, error) { return mJSON(string(*x)) }
func (x *S_jptp_n_) MarshalText() ([]byte, error) { return mText(string(*x)) }
func (x *S_jptp_n_) UnmarshalNodeJSON(b njson.Node) error {
	s, err := uNode(b)
	if err == nil {
		*x = S_jptp_n_(s)
	}
	return err
}

type S_jptp_j_ string

func (x *S_jptp_j_) MarshalJSON() ([]byte, error) { return mJSON(string(*x)) }
func (x *S_jptp_j_) MarshalText() ([]byte, error) { return mText(string(*x)) }
func (x *S_jptp_j_) UnmarshalJSON(b []byte) error {
	s, err := uJSON(b)
	if err == nil {
		*x = S_jptp_j_(s)
	}
	return err
}

type S_jptp_t_ string

func (x *S_jptp_t_) MarshalJSON() ([]byte, error) { return mJSON(string(*x)) }
func (x *S_jptp_t_) MarshalText() ([]byte, error) { return mText(string(*x)) }
func (x *S_jptp_t_) UnmarshalText(b []byte) error {
	s, err := uText(b)
	if err == nil {
		*x = S_jptp_t_(s)
	}
	return err
}

type S_jptp_nj_ string

func (x *S_jptp_nj_) MarshalJSON() ([]byte, error) { return mJSON(string(*x)) }
func (x *S_jptp_nj_) MarshalText() ([]byte, error) { return mText(string(*x)) }
func (x *S_jptp_nj_) UnmarshalNodeJSON(b njson.Node) error {
	s, err := uNode(b)
	if err == nil {
		*x = S_jptp_nj_(s)
	}
	return err
}
func (x *S_jptp_nj_) UnmarshalJSON(b []byte) error {
	s, err := uJSON(b)
	if err == nil {
		*x = S_jptp_nj_(s)
	}
	return err
}

type S_jptp_jt_ string

func (x *S_jptp_jt_) MarshalJSON() ([]byte, error) { return mJSON(string(*x)) }
func (x *S_jptp_jt_) MarshalText() ([]byte, error) { return mText(string(*x)) }
func (x *S_jptp_jt_) UnmarshalJSON(b []byte) error {
	s, err := uJSON(b)
	if err == nil {
		*x = S_jptp_jt_(s)
	}
	return err
}
func (x *S_jptp_jt_) UnmarshalText(b []byte) error {
	s, err := uText(b)
	if err == nil {
		*x = S_jptp_jt_(s)
	}
	return err
}

type S___ov string

func (x S___ov) Omit() bool { return string(x) == "0" }

type S___op string

func (x *S___op) Omit() bool { return string(*x) == "0" }

type S___zv string

func (x S___zv) IsZero() bool { return string(x) == "1" }

type S___xb string

func (x S___xb) Omit() int { return 1 }

type S_jv_j_ov string

func (x S_jv_j_ov) MarshalJSON() ([]byte, error) { return mJSON(string(x)) }
func (x *S_jv_j_ov) UnmarshalJSON(b []byte) error {
	s, err := uJSON(b)
	if err == nil {
		*x = S_jv_j_ov(s)
	}
	return err
}
func (x S_jv_j_ov) Omit() bool { return string(x) == "0" }

type S_jv_j_op string

func (x S_jv_j_op) MarshalJSON() ([]byte, error) { return mJSON(string(x)) }
func (x *S_jv_j_op) UnmarshalJSON(b []byte) error {
	s, err := uJSON(b)
	if err == nil {
		*x = S_jv_j_op(s)
	}
	return err
}
func (x *S_jv_j_op) Omit() bool { return string(*x) == "0" }

type S_jv_j_zv string

func (x S_jv_j_zv) MarshalJSON() ([]byte, error) { return mJSON(string(x)) }
func (x *S_jv_j_zv) UnmarshalJSON(b []byte) error {
	s, err := uJSON(b)
	if err == nil {
		*x = S_jv_j_zv(s)
	}
	return err
}
func (x S_jv_j_zv) IsZero() bool { return string(x) == "1" }

type S_jv_j_xb string

func (x S_jv_j_xb) MarshalJSON() ([]byte, error) { return mJSON(string(x)) }
func (x *S_jv_j_xb) UnmarshalJSON(b []byte) error {
	s, err := uJSON(b)
	if err == nil {
		*x = S_jv_j_xb(s)
	}
	return err
}
func (x S_jv_j_xb) Omit() int { return 1 }

type S_tp_t_ov string

func (x *S_tp_t_ov) MarshalText() ([]byte, error) { return mText(string(*x)) }
func (x *S_tp_t_ov) UnmarshalText(b []byte) error {
	s, err := uText(b)
	if err == nil {
		*x = S_tp_t_ov(s)
	}
	return err
}
func (x S_tp_t_ov) Omit() bool { return string(x) == "0" }

type S_tp_t_op string

func (x *S_tp_t_op) MarshalText() ([]byte, error) { return mText(string(*x)) }
func (x *S_tp_t_op) UnmarshalText(b []byte) error {
	s, err := uText(b)
	if err == nil {
		*x = S_tp_t_op(s)
	}
	return err
}
func (x *S_tp_t_op) Omit() bool { return string(*x) == "0" }

type S_tp_t_zv string

func (x *S_tp_t_zv) MarshalText() ([]byte, error) { return mText(string(*x)) }
func (x *S_tp_t_zv) UnmarshalText(b []byte) error {
	s, err := uText(b)
	if err == nil {
		*x = S_tp_t_zv(s)
	}
	return err
}
func (x S_tp_t_zv) IsZero() bool { return string(x) == "1" }

type S_tp_t_xb string

func (x *S_tp_t_xb) MarshalText() ([]byte, error) { return mText(string(*x)) }
func (x *S_tp_t_xb) UnmarshalText(b []byte) error {
	s, err := uText(b)
	if err == nil {
		*x = S_tp_t_xb(s)
	}
	return err
}
func (x S_tp_t_xb) Omit() int { return 1 }

type S_av_n_ov string

func (x S_av_n_ov) AppendJSON(out []byte) ([]byte, error) { return mAppend(out, string(x)) }
func (x *S_av_n_ov) UnmarshalNodeJSON(b njson.Node) error {
	s, err := uNode(b)
	if err == nil {
		*x = S_av_n_ov(s)
	}
	return err
}
func (x S_av_n_ov) Omit() bool { return string(x) == "0" }

type S_av_n_op string

func (x S_av_n_op) AppendJSON(out []byte) ([]byte, error) { return mAppend(out, string(x)) }
func (x *S_av_n_op) UnmarshalNodeJSON(b njson.Node) error {
	s, err := uNode(b)
	if err == nil {
		*x = S_av_n_op(s)
	}
	return err
}
func (x *S_av_n_op) Omit() bool { return string(*x) == "0" }

type S_av_n_zv string

func (x S_av_n_zv) AppendJSON(out []byte) ([]byte, error) { return mAppend(out, string(x)) }
func (x *S_av_n_zv) UnmarshalNodeJSON(b njson.Node) error {
	s, err := uNode(b)
	if err == nil {
		*x = S_av_n_zv(s)
	}
	return err
}
func (x S_av_n_zv) IsZero() bool { return string(x) == "1" }

type S_av_n_xb string

func (x S_av_n_xb) AppendJSON(out []byte) ([]byte, error) { return mAppend(out, string(x)) }
func (x *S_av_n_xb) UnmarshalNodeJSON(b njson.Node) error {
	s, err := uNode(b)
	if err == nil {
		*x = S_av_n_xb(s)
	}
	return err
}
func (x S_av_n_xb) Omit() int { return 1 }

type R__n_ struct{ S string }

func (x *R__n_) UnmarshalNodeJSON(b njson.Node) error {
	s, err := uNode(b)
	if err == nil {
		x.S = s
	}
	return err
}

type R__j_ struct{ S string }

func (x *R__j_) UnmarshalJSON(b []byte) error {
	s, err := uJSON(b)
	if err == nil {
		x.S = s
	}
	return err
}

type R__t_ struct{ S string }

func (x *R__t_) UnmarshalText(b []byte) error {
	s, err := uText(b)
	if err == nil {
		x.S = s
	}
	return err
}

type R__nj_ struct{ S string }

func (x *R__nj_) UnmarshalNodeJSON(b njson.Node) error {
	s, err := uNode(b)
	if err == nil {
		x.S = s
	}
	return err
}
func (x *R__nj_) UnmarshalJSON(b []byte) error {
	s, err := uJSON(b)
	if err == nil {
		x.S = s
	}
	return err
}

type R__jt_ struct{ S string }

func (x *R__jt_) UnmarshalJSON(b []byte) error {
	s, err := uJSON(b)
	if err == nil {
		x.S = s
	}
	return err
}
func (x *R__jt_) UnmarshalText(b []byte) error {
	s, err := uText(b)
	if err == nil {
		x.S = s
	}
	return err
}

type R_av__ struct{ S string }

func (x R_av__) AppendJSON(out []byte) ([]byte, error) { return mAppend(out, x.S) }

type R_av_n_ struct{ S string }

func (x R_av_n_) AppendJSON(out []byte) ([]byte, error) { return mAppend(out, x.S) }
func (x *R_av_n_) UnmarshalNodeJSON(b njson.Node) error {
	s, err := uNode(b)
	if err == nil {
		x.S = s
	}
	return err
}

type R_av_j_ struct{ S string }

func (x R_av_j_) AppendJSON(out []byte) ([]byte, error) { return mAppend(out, x.S) }
func (x *R_av_j_) UnmarshalJSON(b []byte) error {
	s, err := uJSON(b)
	if err == nil {
		x.S = s
	}
	return err
}

type R_av_t_ struct{ S string }

func (x R_av_t_) AppendJSON(out []byte) ([]byte, error) { return mAppend(out, x.S) }
func (x *R_av_t_) UnmarshalText(b []byte) error {
	s, err := uText(b)
	if err == nil {
		x.S = s
	}
	return err
}

type R_av_nj_ struct{ S string }

func (x R_av_nj_) AppendJSON(out []byte) ([]byte, error) { return mAppend(out, x.S) }
func (x *R_av_nj_) UnmarshalNodeJSON(b njson.Node) error {
	s, err := uNode(b)
	if err == nil {
		x.S = s
	}
	return err
}
func (x *R_av_nj_) UnmarshalJSON(b []byte) error {
	s, err := uJSON(b)
	if err == nil {
		x.S = s
	}
	return err
}

type R_av_jt_ struct{ S string }

func (x R_av_jt_) AppendJSON(out []byte) ([]byte, error) { return mAppend(out, x.S) }
func (x *R_av_jt_) UnmarshalJSON(b []byte) error {
	s, err := uJSON(b)
	if err == nil {
		x.S = s
	}
	return err
}
func (x *R_av_jt_) UnmarshalText(b []byte) error {
	s, err := uText(b)
	if err == nil {
		x.S = s
	}
	return err
}

type R_ap__ struct{ S string }

func (x *R_ap__) AppendJSON(out []byte) ([]byte, error) { return mAppend(out, x.S) }

type R_ap_n_ struct{ S string }

func (x *R_ap_n_) AppendJSON(out []byte) ([]byte, error) { return mAppend(out, x.S) }
func (x *R_ap_n_) UnmarshalNodeJSON(b njson.Node) error {
	s, err := uNode(b)
	if err == nil {
		x.S = s
	}
	return err
}

type R_ap_j_ struct{ S string }

func (x *R_ap_j_) AppendJSON(out []byte) ([]byte, error) { return mAppend(out, x.S) }
func (x *R_ap_j_) UnmarshalJSON(b []byte) error {
	s, err := uJSON(b)
	if err == nil {
		x.S = s
	}
	return err
}

type R_ap_t_ struct{ S string }

func (x *R_ap_t_) AppendJSON(out []byte) ([]byte, error) { return mAppend(out, x.S) }
func (x *R_ap_t_) UnmarshalText(b []byte) error {
	s, err := uText(b)
	if err == nil {
		x.S = s
	}
	return err
}

type R_ap_nj_ struct{ S string }

func (x *R_ap_nj_) AppendJSON(out []byte) ([]byte, error) { return mAppend(out, x.S) }
func (x *R_ap_nj_) UnmarshalNodeJSON(b njson.Node) error {
	s, err := uNode(b)
	if err == nil {
		x.S = s
	}
	return err
}
func (x *R_ap_nj_) UnmarshalJSON(b []byte) error {
	s, err := uJSON(b)
	if err == nil {
		x.S = s
	}
	return err
}

type R_ap_jt_ struct{ S string }

func (x *R_ap_jt_) AppendJSON(out []byte) ([]byte, error) { return mAppend(out, x.S) }
func (x *R_ap_jt_) UnmarshalJSON(b []byte) error {
	s, err := uJSON(b)
	if err == nil {
		x.S = s
	}
	return err
}
func (x *R_ap_jt_) UnmarshalText(b []byte) error {
	s, err := uText(b)
	if err == nil {
		x.S = s
	}
	return err
}

type R_jv__ struct{ S string }

func (x R_jv__) MarshalJSON() ([]byte, error) { return mJSON(x.S) }

type R_jv_n_ struct{ S string }

func (x R_jv_n_) MarshalJSON() ([]byte, error) { return mJSON(x.S) }
func (x *R_jv_n_) UnmarshalNodeJSON(b njson.Node) error {
	s, err := uNode(b)
	if err == nil {
		x.S = s
	}
	return err
}

type R_jv_j_ struct{ S string }

func (x R_jv_j_) MarshalJSON() ([]byte, error) { return mJSON(x.S) }
func (x *R_jv_j_) UnmarshalJSON(b []byte) error {
	s, err := uJSON(b)
	if err == nil {
		x.S = s
	}
	return err
}

type R_jv_t_ struct{ S string }

func (x R_jv_t_) MarshalJSON() ([]byte, error) { return mJSON(x.S) }
func (x *R_jv_t_) UnmarshalText(b []byte) error {
	s, err := uText(b)
	if err == nil {
		x.S = s
	}
	return err
}

type R_jv_nj_ struct{ S string }

func (x R_jv_nj_) MarshalJSON() ([]byte, error) { return mJSON(x.S) }
func (x *R_jv_nj_) UnmarshalNodeJSON(b njson.Node) error {
	s, err := uNode(b)
	if err == nil {
		x.S = s
	}
	return err
}
func (x *R_jv_nj_) UnmarshalJSON(b []byte) error {
	s, err := uJSON(b)
	if err == nil {
		x.S = s
	}
	return err
}

type R_jv_jt_ struct{ S string }

func (x R_jv_jt_) MarshalJSON() ([]byte, error) { return mJSON(x.S) }
func (x *R_jv_jt_) UnmarshalJSON(b []byte) error {
	s, err := uJSON(b)
	if err == nil {
		x.S = s
	}
	return err
}
func (x *R_jv_jt_) UnmarshalText(b []byte) error {
	s, err := uText(b)
	if err == nil {
		x.S = s
	}
	return err
}

type R_jp__ struct{ S string }

func (x *R_jp__) MarshalJSON() ([]byte, error) { return mJSON(x.S) }

type R_jp_n_ struct{ S string }

func (x *R_jp_n_) MarshalJSON() ([]byte, error) { return mJSON(x.S) }
func (x *R_jp_n_) UnmarshalNodeJSON(b njson.Node) error {
	s, err := uNode(b)
	if err == nil {
		x.S = s
	}
	return err
}

type R_jp_j_ struct{ S string }

func (x *R_jp_j_) MarshalJSON() ([]byte, error) { return mJSON(x.S) }
func (x *R_jp_j_) UnmarshalJSON(b []byte) error {
	s, err := uJSON(b)
	if err == nil {
		x.S = s
	}
	return err
}

type R_jp_t_ struct{ S string }

func (x *R_jp_t_) MarshalJSON() ([]byte, error) { return mJSON(x.S) }
func (x *R_jp_t_) UnmarshalText(b []byte) error {
	s, err := uText(b)
	if err == nil {
		x.S = s
	}
	return err
}

type R_jp_nj_ struct{ S string }

func (x *R_jp_nj_) MarshalJSON() ([]byte, error) { return mJSON(x.S) }
func (x *R_jp_nj_) UnmarshalNodeJSON(b njson.Node) error {
	s, err := uNode(b)
	if err == nil {
		x.S = s
	}
	return err
}
func (x *R_jp_nj_) UnmarshalJSON(b []byte) error {
	s, err := uJSON(b)
	if err == nil {
		x.S = s
	}
	return err
}

type R_jp_jt_ struct{ S string }

func (x *R_jp_jt_) MarshalJSON() ([]byte, error) { return mJSON(x.S) }
func (x *R_jp_jt_) UnmarshalJSON(b []byte) error {
	s, err := uJSON(b)
	if err == nil {
		x.S = s
	}
	return err
}
func (x *R_jp_jt_) UnmarshalText(b []byte) error {
	s, err := uText(b)
	if err == nil {
		x.S = s
	}
	return err
}

type R_tv__ struct{ S string }

func (x R_tv__) MarshalText() ([]byte, error) { return mText(x.S) }

type R_tv_n_ struct{ S string }

func (x R_tv_n_) MarshalText() ([]byte, error) { return mText(x.S) }
func (x *R_tv_n_) UnmarshalNodeJSON(b njson.Node) error {
	s, err := uNode(b)
	if err == nil {
		x.S = s
	}
	return err
}

type R_tv_j_ struct{ S string }

func (x R_tv_j_) MarshalText() ([]byte, error) { return mText(x.S) }
func (x *R_tv_j_) UnmarshalJSON(b []byte) error {
	s, err := uJSON(b)
	if err == nil {
		x.S = s
	}
	return err
}

type R_tv_t_ struct{ S string }

func (x R_tv_t_) MarshalText() ([]byte, error) { return mText(x.S) }
func (x *R_tv_t_) UnmarshalText(b []byte) error {
	s, err := uText(b)
	if err == nil {
		x.S = s
	}
	return err
}

type R_tv_nj_ struct{ S string }

func (x R_tv_nj_) MarshalText() ([]byte, error) { return mText(x.S) }
func (x *R_tv_nj_) UnmarshalNodeJSON(b njson.Node) error {
	s, err := uNode(b)
	if err == nil {
		x.S = s
	}
	return err
}
func (x *R_tv_nj_) UnmarshalJSON(b []byte) error {
	s, err := uJSON(b)
	if err == nil {
		x.S = s
	}
	return err
}

type R_tv_jt_ struct{ S string }

func (x R_tv_jt_) MarshalText() ([]byte, error) { return mText(x.S) }
func (x *R_tv_jt_) UnmarshalJSON(b []byte) error {
	s, err := uJSON(b)
	if err == nil {
		x.S = s
	}
	return err
}
func (x *R_tv_jt_) UnmarshalText(b []byte) error {
	s, err := uText(b)
	if err == nil {
		x.S = s
	}
	return err
}

type R_tp__ struct{ S string }

func (x *R_tp__) MarshalText() ([]byte, error) { return mText(x.S) }

type R_tp_n_ struct{ S string }

func (x *R_tp_n_) MarshalText() ([]byte, error) { return mText(x.S) }
func (x *R_tp_n_) UnmarshalNodeJSON(b njson.Node) error {
	s, err := uNode(b)
	if err == nil {
		x.S = s
	}
	return err
}

type R_tp_j_ struct{ S string }

func (x *R_tp_j_) MarshalText() ([]byte, error) { return mText(x.S) }
func (x *R_tp_j_) UnmarshalJSON(b []byte) error {
	s, err := uJSON(b)
	if err == nil {
		x.S = s
	}
	return err
}

type R_tp_t_ struct{ S string }

func (x *R_tp_t_) MarshalText() ([]byte, error) { return mText(x.S) }
func (x *R_tp_t_) UnmarshalText(b []byte) error {
	s, err := uText(b)
	if err == nil {
		x.S = s
	}
	return err
}

type R_tp_nj_ struct{ S string }

func (x *R_tp_nj_) MarshalText() ([]byte, error) { return mText(x.S) }
func (x *R_tp_nj_) UnmarshalNodeJSON(b njson.Node) error {
	s, err := uNode(b)
	if err == nil {
		x.S = s
	}
	return err
}
func (x *R_tp_nj_) UnmarshalJSON(b []byte) error {
	s, err := uJSON(b)
	if err == nil {
		x.S = s
	}
	return err
}

type R_tp_jt_ struct{ S string }

func (x *R_tp_jt_) MarshalText() ([]byte, error) { return mText(x.S) }
func (x *R_tp_jt_) UnmarshalJSON(b []byte) error {
	s, err := uJSON(b)
	if err == nil {
		x.S = s
	}
	return err
}
func (x *R_tp_jt_) UnmarshalText(b []byte) error {
	s, err := uText(b)
	if err == nil {
		x.S = s
	}
	return err
}

type R_avjv__ struct{ S string }

func (x R_avjv__) AppendJSON(out []byte) ([]byte, error) { return mAppend(out, x.S) }
func (x R_avjv__) MarshalJSON() ([]byte, error)          { return mJSON(x.S) }

type R_avjv_n_ struct{ S string }

func (x R_avjv_n_) AppendJSON(out []byte) ([]byte, error) { return mAppend(out, x.S) }
func (x R_avjv_n_) MarshalJSON() ([]byte, error)          { return mJSON(x.S) }
func (x *R_avjv_n_) UnmarshalNodeJSON(b njson.Node) error {
	s, err := uNode(b)
	if err == nil {
		x.S = s
	}
	return err
}

type R_avjv_j_ struct{ S string }

func (x R_avjv_j_) AppendJSON(out []byte) ([]byte, error) { return mAppend(out, x.S) }
func (x R_avjv_j_) MarshalJSON() ([]byte, error)          { return mJSON(x.S) }
func (x *R_avjv_j_) UnmarshalJSON(b []byte) error {
	s, err := uJSON(b)
	if err == nil {
		x.S = s
	}
	return err
}

type R_avjv_t_ struct{ S string }

func (x R_avjv_t_) AppendJSON(out []byte) ([]byte, error) { return mAppend(out, x.S) }
func (x R_avjv_t_) MarshalJSON() ([]byte, error)          { return mJSON(x.S) }
func (x *R_avjv_t_) UnmarshalText(b []byte) error {
	s, err := uText(b)
	if err == nil {
		x.S = s
	}
	return err
}

type R_avjv_nj_ struct{ S string }

func (x R_avjv_nj_) AppendJSON(out []byte) ([]byte, error) { return mAppend(out, x.S) }
func (x R_avjv_nj_) MarshalJSON() ([]byte, error)          { return mJSON(x.S) }
func (x *R_avjv_nj_) UnmarshalNodeJSON(b njson.Node) error {
	s, err := uNode(b)
	if err == nil {
		x.S = s
	}
	return err
}
func (x *R_avjv_nj_) UnmarshalJSON(b []byte) error {
	s, err := uJSON(b)
	if err == nil {
		x.S = s
	}
	return err
}

type R_avjv_jt_ struct{ S string }

func (x R_avjv_jt_) AppendJSON(out []byte) ([]byte, error) { return mAppend(out, x.S) }
func (x R_avjv_jt_) MarshalJSON() ([]byte, error)          { return mJSON(x.S) }
func (x *R_avjv_jt_) UnmarshalJSON(b []byte) error {
	s, err := uJSON(b)
	if err == nil {
		x.S = s
	}
	return err
}
func (x *R_avjv_jt_) UnmarshalText(b []byte) error {
	s, err := uText(b)
	if err == nil {
		x.S = s
	}
	return err
}

type R_apjp__ struct{ S string }

func (x *R_apjp__) AppendJSON(out []byte) ([]byte, error) { return mAppend(out, x.S) }
func (x *R_apjp__) MarshalJSON() ([]byte, error)          { return mJSON(x.S) }

type R_apjp_n_ struct{ S string }

func (x *R_apjp_n_) AppendJSON(out []byte) ([]byte, error) { return mAppend(out, x.S) }
func (x *R_apjp_n_) MarshalJSON() ([]byte, error)          { return mJSON(x.S) }
func (x *R_apjp_n_) UnmarshalNodeJSON(b njson.Node) error {
	s, err := uNode(b)
	if err == nil {
		x.S = s
	}
	return err
}

type R_apjp_j_ struct{ S string }

func (x *R_apjp_j_) AppendJSON(out []byte) ([]byte, error) { return mAppend(out, x.S) }
func (x *R_apjp_j_) MarshalJSON() ([]byte, error)          { return mJSON(x.S) }
func (x *R_apjp_j_) UnmarshalJSON(b []byte) error {
	s, err := uJSON(b)
	if err == nil {
		x.S = s
	}
	return err
}

type R_apjp_t_ struct{ S string }

func (x *R_apjp_t_) AppendJSON(out []byte) ([]byte, error) { return mAppend(out, x.S) }
func (x *R_apjp_t_) MarshalJSON() ([]byte, error)          { return mJSON(x.S) }
func (x *R_apjp_t_) UnmarshalText(b []byte) error {
	s, err := uText(b)
	if err == nil {
		x.S = s
	}
	return err
}

type R_apjp_nj_ struct{ S string }

func (x *R_apjp_nj_) AppendJSON(out []byte) ([]byte, error) { return mAppend(out, x.S) }
func (x *R_apjp_nj_) MarshalJSON() ([]byte, error)          { return mJSON(x.S) }
func (x *R_apjp_nj_) UnmarshalNodeJSON(b njson.Node) error {
	s, err := uNode(b)
	if err == nil {
		x.S = s
	}
	return err
}
func (x *R_apjp_nj_) UnmarshalJSON(b []byte) error {
	s, err := uJSON(b)
	if err == nil {
		x.S = s
	}
	return err
}

type R_apjp_jt_ struct{ S string }

func (x *R_apjp_jt_) AppendJSON(out []byte) ([]byte, error) { return mAppend(out, x.S) }
func (x *R_apjp_jt_) MarshalJSON() ([]byte, error)          { return mJSON(x.S) }
func (x *R_apjp_jt_) UnmarshalJSON(b []byte) error {
	s, err := uJSON(b)
	if err == nil {
		x.S = s
	}
	return err
}
func (x *R_apjp_jt_) UnmarshalText(b []byte) error {
	s, err := uText(b)
	if err == nil {
		x.S = s
	}
	return err
}

type R_jvtv__ struct{ S string }

func (x R_jvtv__) MarshalJSON() ([]byte, error) { return mJSON(x.S) }
func (x R_jvtv__) MarshalText() ([]byte, error) { return mText(x.S) }

type R_jvtv_n_ struct{ S string }

func (x R_jvtv_n_) MarshalJSON() ([]byte, error) { return mJSON(x.S) }
func (x R_jvtv_n_) MarshalText() ([]byte, error) { return mText(x.S) }
func (x *R_jvtv_n_) UnmarshalNodeJSON(b njson.Node) error {
	s, err := uNode(b)
	if err == nil {
		x.S = s
	}
	return err
}

type R_jvtv_j_ struct{ S string }

func (x R_jvtv_j_) MarshalJSON() ([]byte, error) { return mJSON(x.S) }
func (x R_jvtv_j_) MarshalText() ([]byte, error) { return mText(x.S) }
func (x *R_jvtv_j_) UnmarshalJSON(b []byte) error {
	s, err := uJSON(b)
	if err == nil {
		x.S = s
	}
	return err
}

type R_jvtv_t_ struct{ S string }

func (x R_jvtv_t_) MarshalJSON() ([]byte, error) { return mJSON(x.S) }
func (x R_jvtv_t_) MarshalText() ([]byte, error) { return mText(x.S) }
func (x *R_jvtv_t_) UnmarshalText(b []byte) error {
	s, err := uText(b)
	if err == nil {
		x.S = s
	}
	return err
}

type R_jvtv_nj_ struct{ S string }

func (x R_jvtv_nj_) MarshalJSON() ([]byte, error) { return mJSON(x.S) }
func (x R_jvtv_nj_) MarshalText() ([]byte, error) { return mText(x.S) }
func (x *R_jvtv_nj_) UnmarshalNodeJSON(b njson.Node) error {
	s, err := uNode(b)
	if err == nil {
		x.S = s
	}
	return err
}
func (x *R_jvtv_nj_) UnmarshalJSON(b []byte) error {
	s, err := uJSON(b)
	if err == nil {
		x.S = s
	}
	return err
}

type R_jvtv_jt_ struct{ S string }

func (x R_jvtv_jt_) MarshalJSON() ([]byte, error) { return mJSON(x.S) }
func (x R_jvtv_jt_) MarshalText() ([]byte, error) { return mText(x.S) }
func (x *R_jvtv_jt_) UnmarshalJSON(b []byte) error {
	s, err := uJSON(b)
	if err == nil {
		x.S = s
	}
	return err
}
func (x *R_jvtv_jt_) UnmarshalText(b []byte) error {
	s, err := uText(b)
	if err == nil {
		x.S = s
	}
	return err
}

type R_jptp__ struct{ S string }

func (x *R_jptp__) MarshalJSON() ([]byte, error) { return mJSON(x.S) }
func (x *R_jptp__) MarshalText() ([]byte, error) { return mText(x.S) }

type R_jptp_n_ struct{ S string }

func (x *R_jptp_n_) MarshalJSON() ([]byte, error) { return mJSON(x.S) }
func (x *R_jptp_n_) MarshalText() ([]byte, error) { return mText(x.S) }
func (x *R_jptp_n_) UnmarshalNodeJSON(b njson.Node) error {
	s, err := uNode(b)
	if err == nil {
		x.S = s
	}
	return err
}

type R_jptp_j_ struct{ S string }

func (x *R_jptp_j_) MarshalJSON() ([]byte, error) { return mJSON(x.S) }
func (x *R_jptp_j_) MarshalText() ([]byte, error) { return mText(x.S) }
func (x *R_jptp_j_) UnmarshalJSON(b []byte) error {
	s, err := uJSON(b)
	if err == nil {
		x.S = s
	}
	return err
}

type R_jptp_t_ struct{ S string }

func (x *R_jptp_t_) MarshalJSON() ([]byte, error) { return mJSON(x.S) }
func (x *R_jptp_t_) MarshalText() ([]byte, error) { return mText(x.S) }
func (x *R_jptp_t_) UnmarshalText(b []byte) error {
	s, err := uText(b)
	if err == nil {
		x.S = s
	}
	return err
}

type R_jptp_nj_ struct{ S string }

func (x *R_jptp_nj_) MarshalJSON() ([]byte, error) { return mJSON(x.S) }
func (x *R_jptp_nj_) MarshalText() ([]byte, error) { return mText(x.S) }
func (x *R_jptp_nj_) UnmarshalNodeJSON(b njson.Node) error {
	s, err := uNode(b)
	if err == nil {
		x.S = s
	}
	return err
}
func (x *R_jptp_nj_) UnmarshalJSON(b []byte) error {
	s, err := uJSON(b)
	if err == nil {
		x.S = s
	}
	return err
}

type R_jptp_jt_ struct{ S string }

func (x *R_jptp_jt_) MarshalJSON() ([]byte, error) { return mJSON(x.S) }
func (x *R_jptp_jt_) MarshalText() ([]byte, error) { return mText(x.S) }
func (x *R_jptp_jt_) UnmarshalJSON(b []byte) error {
	s, err := uJSON(b)
	if err == nil {
		x.S = s
	}
	return err
}
func (x *R_jptp_jt_) UnmarshalText(b []byte) error {
	s, err := uText(b)
	if err == nil {
		x.S = s
	}
	return err
}

type R___ov struct{ S string }

func (x R___ov) Omit() bool { return x.S == "0" }

type R___op struct{ S string }

func (x *R___op) Omit() bool { return x.S == "0" }

type R___zv struct{ S string }

func (x R___zv) IsZero() bool { return x.S == "1" }

type R___xb struct{ S string }

func (x R___xb) Omit() int { return 1 }

type R_jv_j_ov struct{ S string }

func (x R_jv_j_ov) MarshalJSON() ([]byte, error) { return mJSON(x.S) }
func (x *R_jv_j_ov) UnmarshalJSON(b []byte) error {
	s, err := uJSON(b)
	if err == nil {
		x.S = s
	}
	return err
}
func (x R_jv_j_ov) Omit() bool { return x.S == "0" }

type R_jv_j_op struct{ S string }

func (x R_jv_j_op) MarshalJSON() ([]byte, error) { return mJSON(x.S) }
func (x *R_jv_j_op) UnmarshalJSON(b []byte) error {
	s, err := uJSON(b)
	if err == nil {
		x.S = s
	}
	return err
}
func (x *R_jv_j_op) Omit() bool { return x.S == "0" }

type R_jv_j_zv struct{ S string }

func (x R_jv_j_zv) MarshalJSON() ([]byte, error) { return mJSON(x.S) }
func (x *R_jv_j_zv) UnmarshalJSON(b []byte) error {
	s, err := uJSON(b)
	if err == nil {
		x.S = s
	}
	return err
}
func (x R_jv_j_zv) IsZero() bool { return x.S == "1" }

type R_jv_j_xb struct{ S string }

func (x R_jv_j_xb) MarshalJSON() ([]byte, error) { return mJSON(x.S) }
func (x *R_jv_j_xb) UnmarshalJSON(b []byte) error {
	s, err := uJSON(b)
	if err == nil {
		x.S = s
	}
	return err
}
func (x R_jv_j_xb) Omit() int { return 1 }

type R_tp_t_ov struct{ S string }

func (x *R_tp_t_ov) MarshalText() ([]byte, error) { return mText(x.S) }
func (x *R_tp_t_ov) UnmarshalText(b []byte) error {
	s, err := uText(b)
	if err == nil {
		x.S = s
	}
	return err
}
func (x R_tp_t_ov) Omit() bool { return x.S == "0" }

type R_tp_t_op struct{ S string }

func (x *R_tp_t_op) MarshalText() ([]byte, error) { return mText(x.S) }
func (x *R_tp_t_op) UnmarshalText(b []byte) error {
	s, err := uText(b)
	if err == nil {
		x.S = s
	}
	return err
}
func (x *R_tp_t_op) Omit() bool { return x.S == "0" }

type R_tp_t_zv struct{ S string }

func (x *R_tp_t_zv) MarshalText() ([]byte, error) { return mText(x.S) }
func (x *R_tp_t_zv) UnmarshalText(b []byte) error {
	s, err := uText(b)
	if err == nil {
		x.S = s
	}
	return err
}
func (x R_tp_t_zv) IsZero() bool { return x.S == "1" }

type R_tp_t_xb struct{ S string }

func (x *R_tp_t_xb) MarshalText() ([]byte, error) { return mText(x.S) }
func (x *R_tp_t_xb) UnmarshalText(b []byte) error {
	s, err := uText(b)
	if err == nil {
		x.S = s
	}
	return err
}
func (x R_tp_t_xb) Omit() int { return 1 }

type R_av_n_ov struct{ S string }

func (x R_av_n_ov) AppendJSON(out []byte) ([]byte, error) { return mAppend(out, x.S) }
func (x *R_av_n_ov) UnmarshalNodeJSON(b njson.Node) error {
	s, err := uNode(b)
	if err == nil {
		x.S = s
	}
	return err
}
func (x R_av_n_ov) Omit() bool { return x.S == "0" }

type R_av_n_op struct{ S string }

func (x R_av_n_op) AppendJSON(out []byte) ([]byte, error) { return mAppend(out, x.S) }
func (x *R_av_n_op) UnmarshalNodeJSON(b njson.Node) error {
	s, err := uNode(b)
	if err == nil {
		x.S = s
	}
	return err
}
func (x *R_av_n_op) Omit() bool { return x.S == "0" }

type R_av_n_zv struct{ S string }

func (x R_av_n_zv) AppendJSON(out []byte) ([]byte, error) { return mAppend(out, x.S) }
func (x *R_av_n_zv) UnmarshalNodeJSON(b njson.Node) error {
	s, err := uNode(b)
	if err == nil {
		x.S = s
	}
	return err
}
func (x R_av_n_zv) IsZero() bool { return x.S == "1" }

type R_av_n_xb struct{ S string }

func (x R_av_n_xb) AppendJSON(out []byte) ([]byte, error) { return mAppend(out, x.S) }
func (x *R_av_n_xb) UnmarshalNodeJSON(b njson.Node) error {
	s, err := uNode(b)
	if err == nil {
		x.S = s
	}
	return err
}
func (x R_av_n_xb) Omit() int { return 1 }

func init() {
	regLib("S__n_", S__n_(""), "", false, "node", "")
	regLib("S__j_", S__j_(""), "", false, "json", "")
	regLib("S__t_", S__t_(""), "", false, "text", "")
	regLib("S__nj_", S__nj_(""), "", false, "node,json", "")
	regLib("S__jt_", S__jt_(""), "", false, "json,text", "")
	regLib("S_av__", S_av__(""), "append", false, "", "")
	regLib("S_av_n_", S_av_n_(""), "append", false, "node", "")
	regLib("S_av_j_", S_av_j_(""), "append", false, "json", "")
	regLib("S_av_t_", S_av_t_(""), "append", false, "text", "")
	regLib("S_av_nj_", S_av_nj_(""), "append", false, "node,json", "")
	regLib("S_av_jt_", S_av_jt_(""), "append", false, "json,text", "")
	regLib("S_ap__", S_ap__(""), "append", true, "", "")
	regLib("S_ap_n_", S_ap_n_(""), "append", true, "node", "")
	regLib("S_ap_j_", S_ap_j_(""), "append", true, "json", "")
	regLib("S_ap_t_", S_ap_t_(""), "append", true, "text", "")
	regLib("S_ap_nj_", S_ap_nj_(""), "append", true, "node,json", "")
	regLib("S_ap_jt_", S_ap_jt_(""), "append", true, "json,text", "")
	regLib("S_jv__", S_jv__(""), "json", false, "", "")
	regLib("S_jv_n_", S_jv_n_(""), "json", false, "node", "")
	regLib("S_jv_j_", S_jv_j_(""), "json", false, "json", "")
	regLib("S_jv_t_", S_jv_t_(""), "json", false, "text", "")
	regLib("S_jv_nj_", S_jv_nj_(""), "json", false, "node,json", "")
	regLib("S_jv_jt_", S_jv_jt_(""), "json", false, "json,text", "")
	regLib("S_jp__", S_jp__(""), "json", true, "", "")
	regLib("S_jp_n_", S_jp_n_(""), "json", true, "node", "")
	regLib("S_jp_j_", S_jp_j_(""), "json", true, "json", "")
	regLib("S_jp_t_", S_jp_t_(""), "json", true, "text", "")
	regLib("S_jp_nj_", S_jp_nj_(""), "json", true, "node,json", "")
	regLib("S_jp_jt_", S_jp_jt_(""), "json", true, "json,text", "")
	regLib("S_tv__", S_tv__(""), "text", false, "", "")
	regLib("S_tv_n_", S_tv_n_(""), "text", false, "node", "")
	regLib("S_tv_j_", S_tv_j_(""), "text", false, "json", "")
	regLib("S_tv_t_", S_tv_t_(""), "text", false, "text", "")
	regLib("S_tv_nj_", S_tv_nj_(""), "text", false, "node,json", "")
	regLib("S_tv_jt_", S_tv_jt_(""), "text", false, "json,text", "")
	regLib("S_tp__", S_tp__(""), "text", true, "", "")
	regLib("S_tp_n_", S_tp_n_(""), "text", true, "node", "")
	regLib("S_tp_j_", S_tp_j_(""), "text", true, "json", "")
	regLib("S_tp_t_", S_tp_t_(""), "text", true, "text", "")
	regLib("S_tp_nj_", S_tp_nj_(""), "text", true, "node,json", "")
	regLib("S_tp_jt_", S_tp_jt_(""), "text", true, "json,text", "")
	regLib("S_avjv__", S_avjv__(""), "append,json", false, "", "")
	regLib("S_avjv_n_", S_avjv_n_(""), "append,json", false, "node", "")
	regLib("S_avjv_j_", S_avjv_j_(""), "append,json", false, "json", "")
	regLib("S_avjv_t_", S_avjv_t_(""), "append,json", false, "text", "")
	regLib("S_avjv_nj_", S_avjv_nj_(""), "append,json", false, "node,json", "")
	regLib("S_avjv_jt_", S_avjv_jt_(""), "append,json", false, "json,text", "")
	regLib("S_apjp__", S_apjp__(""), "append,json", true, "", "")
	regLib("S_apjp_n_", S_apjp_n_(""), "append,json", true, "node", "")
	regLib("S_apjp_j_", S_apjp_j_(""), "append,json", true, "json", "")
	regLib("S_apjp_t_", S_apjp_t_(""), "append,json", true, "text", "")
	regLib("S_apjp_nj_", S_apjp_nj_(""), "append,json", true, "node,json", "")
	regLib("S_apjp_jt_", S_apjp_jt_(""), "append,json", true, "json,text", "")
	regLib("S_jvtv__", S_jvtv__(""), "json,text", false, "", "")
	regLib("S_jvtv_n_", S_jvtv_n_(""), "json,text", false, "node", "")
	regLib("S_jvtv_j_", S_jvtv_j_(""), "json,text", false, "json", "")
	regLib("S_jvtv_t_", S_jvtv_t_(""), "json,text", false, "text", "")
	regLib("S_jvtv_nj_", S_jvtv_nj_(""), "json,text", false, "node,json", "")
	regLib("S_jvtv_jt_", S_jvtv_jt_(""), "json,text", false, "json,text", "")
	regLib("S_jptp__", S_jptp__(""), "json,text", true, "", "")
	regLib("S_jptp_n_", S_jptp_n_(""), "json,text", true, "node", "")
	regLib("S_jptp_j_", S_jptp_j_(""), "json,text", true, "json", "")
	regLib("S_jptp_t_", S_jptp_t_(""), "json,text", true, "text", "")
	regLib("S_jptp_nj_", S_jptp_nj_(""), "json,text", true, "node,json", "")
	regLib("S_jptp_jt_", S_jptp_jt_(""), "json,text", true, "json,text", "")
	regLib("S___ov", S___ov(""), "", false, "", "Omit:0")
	regLib("S___op", S___op(""), "", false, "", "Omit:0")
	regLib("S___zv", S___zv(""), "", false, "", "IsZero:1")
	regLib("S___xb", S___xb(""), "", false, "", "")
	regLib("S_jv_j_ov", S_jv_j_ov(""), "json", false, "json", "Omit:0")
	regLib("S_jv_j_op", S_jv_j_op(""), "json", false, "json", "Omit:0")
	regLib("S_jv_j_zv", S_jv_j_zv(""), "json", false, "json", "IsZero:1")
	regLib("S_jv_j_xb", S_jv_j_xb(""), "json", false, "json", "")
	regLib("S_tp_t_ov", S_tp_t_ov(""), "text", true, "text", "Omit:0")
	regLib("S_tp_t_op", S_tp_t_op(""), "text", true, "text", "Omit:0")
	regLib("S_tp_t_zv", S_tp_t_zv(""), "text", true, "text", "IsZero:1")
	regLib("S_tp_t_xb", S_tp_t_xb(""), "text", true, "text", "")
	regLib("S_av_n_ov", S_av_n_ov(""), "append", false, "node", "Omit:0")
	regLib("S_av_n_op", S_av_n_op(""), "append", false, "node", "Omit:0")
	regLib("S_av_n_zv", S_av_n_zv(""), "append", false, "node", "IsZero:1")
	regLib("S_av_n_xb", S_av_n_xb(""), "append", false, "node", "")
	regLib("R__n_", R__n_{}, "", false, "node", "")
	regLib("R__j_", R__j_{}, "", false, "json", "")
	regLib("R__t_", R__t_{}, "", false, "text", "")
	regLib("R__nj_", R__nj_{}, "", false, "node,json", "")
	regLib("R__jt_", R__jt_{}, "", false, "json,text", "")
	regLib("R_av__", R_av__{}, "append", false, "", "")
	regLib("R_av_n_", R_av_n_{}, "append", false, "node", "")
	regLib("R_av_j_", R_av_j_{}, "append", false, "json", "")
	regLib("R_av_t_", R_av_t_{}, "append", false, "text", "")
	regLib("R_av_nj_", R_av_nj_{}, "append", false, "node,json", "")
	regLib("R_av_jt_", R_av_jt_{}, "append", false, "json,text", "")
	regLib("R_ap__", R_ap__{}, "append", true, "", "")
	regLib("R_ap_n_", R_ap_n_{}, "append", true, "node", "")
	regLib("R_ap_j_", R_ap_j_{}, "append", true, "json", "")
	regLib("R_ap_t_", R_ap_t_{}, "append", true, "text", "")
	regLib("R_ap_nj_", R_ap_nj_{}, "append", true, "node,json", "")
	regLib("R_ap_jt_", R_ap_jt_{}, "append", true, "json,text", "")
	regLib("R_jv__", R_jv__{}, "json", false, "", "")
	regLib("R_jv_n_", R_jv_n_{}, "json", false, "node", "")
	regLib("R_jv_j_", R_jv_j_{}, "json", false, "json", "")
	regLib("R_jv_t_", R_jv_t_{}, "json", false, "text", "")
	regLib("R_jv_nj_", R_jv_nj_{}, "json", false, "node,json", "")
	regLib("R_jv_jt_", R_jv_jt_{}, "json", false, "json,text", "")
	regLib("R_jp__", R_jp__{}, "json", true, "", "")
	regLib("R_jp_n_", R_jp_n_{}, "json", true, "node", "")
	regLib("R_jp_j_", R_jp_j_{}, "json", true, "json", "")
	regLib("R_jp_t_", R_jp_t_{}, "json", true, "text", "")
	regLib("R_jp_nj_", R_jp_nj_{}, "json", true, "node,json", "")
	regLib("R_jp_jt_", R_jp_jt_{}, "json", true, "json,text", "")
	regLib("R_tv__", R_tv__{}, "text", false, "", "")
	regLib("R_tv_n_", R_tv_n_{}, "text", false, "node", "")
	regLib("R_tv_j_", R_tv_j_{}, "text", false, "json", "")
	regLib("R_tv_t_", R_tv_t_{}, "text", false, "text", "")
	regLib("R_tv_nj_", R_tv_nj_{}, "text", false, "node,json", "")
	regLib("R_tv_jt_", R_tv_jt_{}, "text", false, "json,text", "")
	regLib("R_tp__", R_tp__{}, "text", true, "", "")
	regLib("R_tp_n_", R_tp_n_{}, "text", true, "node", "")
	regLib("R_tp_j_", R_tp_j_{}, "text", true, "json", "")
	regLib("R_tp_t_", R_tp_t_{}, "text", true, "text", "")
	regLib("R_tp_nj_", R_tp_nj_{}, "text", true, "node,json", "")
	regLib("R_tp_jt_", R_tp_jt_{}, "text", true, "json,text", "")
	regLib("R_avjv__", R_avjv__{}, "append,json", false, "", "")
	regLib("R_avjv_n_", R_avjv_n_{}, "append,json", false, "node", "")
	regLib("R_avjv_j_", R_avjv_j_{}, "append,json", false, "json", "")
	regLib("R_avjv_t_", R_avjv_t_{}, "append,json", false, "text", "")
	regLib("R_avjv_nj_", R_avjv_nj_{}, "append,json", false, "node,json", "")
	regLib("R_avjv_jt_", R_avjv_jt_{}, "append,json", false, "json,text", "")
	regLib("R_apjp__", R_apjp__{}, "append,json", true, "", "")
	regLib("R_apjp_n_", R_apjp_n_{}, "append,json", true, "node", "")
	regLib("R_apjp_j_", R_apjp_j_{}, "append,json", true, "json", "")
	regLib("R_apjp_t_", R_apjp_t_{}, "append,json", true, "text", "")
	regLib("R_apjp_nj_", R_apjp_nj_{}, "append,json", true, "node,json", "")
	regLib("R_apjp_jt_", R_apjp_jt_{}, "append,json", true, "json,text", "")
	regLib("R_jvtv__", R_jvtv__{}, "json,text", false, "", "")
	regLib("R_jvtv_n_", R_jvtv_n_{}, "json,text", false, "node", "")
	regLib("R_jvtv_j_", R_jvtv_j_{}, "json,text", false, "json", "")
	regLib("R_jvtv_t_", R_jvtv_t_{}, "json,text", false, "text", "")
	regLib("R_jvtv_nj_", R_jvtv_nj_{}, "json,text", false, "node,json", "")
	regLib("R_jvtv_jt_", R_jvtv_jt_{}, "json,text", false, "json,text", "")
	regLib("R_jptp__", R_jptp__{}, "json,text", true, "", "")
	regLib("R_jptp_n_", R_jptp_n_{}, "json,text", true, "node", "")
	regLib("R_jptp_j_", R_jptp_j_{}, "json,text", true, "json", "")
	regLib("R_jptp_t_", R_jptp_t_{}, "json,text", true, "text", "")
	regLib("R_jptp_nj_", R_jptp_nj_{}, "json,text", true, "node,json", "")
	regLib("R_jptp_jt_", R_jptp_jt_{}, "json,text", true, "json,text", "")
	regLib("R___ov", R___ov{}, "", false, "", "Omit:0")
	regLib("R___op", R___op{}, "", false, "", "Omit:0")
	regLib("R___zv", R___zv{}, "", false, "", "IsZero:1")
	regLib("R___xb", R___xb{}, "", false, "", "")
	regLib("R_jv_j_ov", R_jv_j_ov{}, "json", false, "json", "Omit:0")
	regLib("R_jv_j_op", R_jv_j_op{}, "json", false, "json", "Omit:0")
	regLib("R_jv_j_zv", R_jv_j_zv{}, "json", false, "json", "IsZero:1")
	regLib("R_jv_j_xb", R_jv_j_xb{}, "json", false, "json", "")
	regLib("R_tp_t_ov", R_tp_t_ov{}, "text", true, "text", "Omit:0")
	regLib("R_tp_t_op", R_tp_t_op{}, "text", true, "text", "Omit:0")
	regLib("R_tp_t_zv", R_tp_t_zv{}, "text", true, "text", "IsZero:1")
	regLib("R_tp_t_xb", R_tp_t_xb{}, "text", true, "text", "")
	regLib("R_av_n_ov", R_av_n_ov{}, "append", false, "node", "Omit:0")
	regLib("R_av_n_op", R_av_n_op{}, "append", false, "node", "Omit:0")
	regLib("R_av_n_zv", R_av_n_zv{}, "append", false, "node", "IsZero:1")
	regLib("R_av_n_xb", R_av_n_xb{}, "append", false, "node", "")
}
