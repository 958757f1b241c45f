MAP+=[("string_escape wrote control","C06"),("to_json did not escape","C06"),("to_json wrote complex","C06"),("to_json wrote pointers","C06"),("to_json of empty","C06"),
("from_json truncated","C07"),("from_json stored integers","C07"),("from_json mixed","C07"),("from_json rounded","C07"),("from_json2 ","C07"),("from_json misread","C07")]
MAP+=[("to_yaml ","C08"),("from_yaml mixed","C08"),("from_yaml miscounted","C08"),("from_yaml read the stream","C08"),("from_yaml swallowed","C21"),("to_toml ","C09"),("from_toml ","C09")]
MAP+=[("read_formatted_data ","C15"),("write_table ","C15"),("GC_","C16"),("functions of the C interface","C16"),("reading functions of the C","C16"),("negative sizes and positions in the C","C16")]
MAP+=[("GC_to_global","C17"),("integers above 2^53 were rounded in the exchange with Lua","C17"),("strings and keys exchanged with Lua","C17"),("keys of Lua tables","C17"),("Lua lists","C17"),("the exchange with Lua","C17"),("reading a Lua table","C17"),("do_file","C17"),("an empty table in a Lua list","C17")]
MAP+=[("dump ","C20"),("complex numbers were printed","C20"),("info cut strings","C20")]
MAP+=[("a container whose allocation failed","C19"),("promotions that ran out of memory","C19"),("a complex number whose allocation failed","C19"),("constructors that ran out of memory","C19"),("a matrix that could not be resized","C19")]
MAP+=[("storing at the last index","C18")]
MAP+=[("printing a map with a long title","C20")]
MAP+=[("file_YAML_to_GC and file_TOML_to_GC opened","C09"),("from_yaml and from_toml reported success","C21")]
MAP+=[("push_string and push_complex of a value","C11"),("operator [] with the container's own text","C18"),("GC_set_vector_of_string with strings of","C16")]
MAP=[(p,"C21") for p in ("from_yaml read past","from_yaml crashed","from_yaml read outside","from_yaml never came back","from_yaml gave the anchor","from_yaml misread or refused maps","from_yaml split plain")]+[("from_toml had undefined behaviour","C18")]+MAP
MAP+=[("serialize refused a vector","C05")]
MAP=[("from_yaml read past the end of a TAG","C23"),("from_yaml crashed when an anchor","C23")]+MAP
MAP+=[("from_json accepted a text that went on","C07")]
MAP=[(p,"C24") for p in ("to_mxArray ","GenericContainer_to_mxArray","mxArray_to_GenericContainer","mxSparse_to_GenericContainer")]+MAP
MAP=[(p,"C25") for p in ("the Ruby interface","get_data of the Ruby","load of the Ruby","after a load that failed the Ruby","containers of the Ruby")]+MAP
MAP+=[("from_yaml refused the escape","C21")]
