------------------------------- MODULE Trace -------------------------------
(* Trace validation: the documents of the file DOCS, each with the marks    *)
(* observed from the code.                                                  *)
EXTENDS Conform, Laws, Json, IOUtils
FileDocs == ndJsonDeserialize(IOEnv.DOCS)
EnvProp == IOEnv.PROP
=============================================================================
