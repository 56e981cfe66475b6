@@include prelude.vc
@@include strx.vc
@@include align_api.vc
@@include align_fns.vc
