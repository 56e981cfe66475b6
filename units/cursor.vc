@@include prelude.vc
@@include bits.vc
@@include cursor_api.vc
@@verbatim
broadcast use bb_group;
@@end
@@include cursor_fns.vc
