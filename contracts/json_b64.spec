@@include common.spec
@@include serde_ser.spec
@@include base64.spec
@@prelude
broadcast use group_ext;
