"""property id -> what decides it: value-graph comparison specs and rule modules"""

PROPS = {
    "C01": {"specs": ["c01"], "rules": ["nodes"]},
    "C02": {"specs": ["c02"], "rules": ["state:expression.copy,expression.context_adder,expression.port_resolver,expression.evaluate_parameters"], "also": ["c15:port_field,port_sum,port_sum_two"]},
    "C03": {"specs": ["c03"]},
    "C04": {"specs": ["c04"], "rules": ["state:expression.equality"]},
    "C05": {"specs": ["c05"], "rules": ["grammar", "state:expression.parsing"]},
    "C06": {"specs": ["c06"], "rules": ["state:expression.degree"]},
    "C07": {"specs": ["c07"], "rules": ["state:expression.indexing"], "also": ["c13:indexing", "c16:structure_provider"]},
    "C08": {"specs": ["c08"], "rules": ["state:expression.operators_expansion"], "also": ["c13:expand", "c16:evaluate_bound,to_int"]},
    "C09": {"specs": ["c09"], "rules": ["state:expression.evaluate"]},
    "C10": {"specs": ["c10"], "rules": ["state:simulation.linearize"], "also": ["c13:linearize", "c16:parameter_getter,parameter_value,absolute,absolute_none,actual"]},
    "C11": {"specs": ["c11"], "rules": ["state:simulation.linear_expression"]},
    "C30": {"specs": ["c30"]},
    "C31": {"specs": ["c31"], "rules": ["state:model."], "also": ["c03:unbounded,nonneg", "c06:is_constant,is_linear"]},
    "C32": {"specs": ["c32"]},
    "C12": {"specs": ["c12"], "rules": ["state:simulation.optimization"], "also": ["c13:instantiate", "c16:expression_value,value_provider,parameter_value,absolute,absolute_none,actual", "c19:merged_variables,investment_variables,operational_variables"]},
    "C13": {"specs": ["c13"], "rules": ["state:simulation.optimization"], "also": ["c16:expression_value,value_provider,parameter_value,absolute,absolute_none,actual,parameter_getter", "c19:merged_constraints,investment_constraints,operational_constraints,all_constraints", "c12:get,get_timeless,indices"]},
    "C14": {"specs": ["c14"], "rules": ["state:simulation.optimization"], "also": ["c13:instantiate,expand,linearize", "c19:merged_objectives,investment_objectives,operational_objectives", "c12:get,get_timeless"]},
    "C15": {"specs": ["c15"], "rules": ["state:simulation.optimization,expression.port_resolver,study.network"], "also": ["c13:instantiate", "c30:listing,all_listed,get_node,get_connection", "c24:network_connections"]},
    "C16": {"specs": ["c16"], "rules": ["state:study.data"], "also": ["c24:data", "c18:groups", "c10:pb_parameter", "c17:constant,time_series,scenario_series,table,tree"]},
    "C17": {"specs": ["c17"], "rules": ["state:study.data,study.network"]},
    "C18": {"specs": ["c18"], "rules": ["state:study.data"], "also": ["c24:data", "c16:scenario_series,table,scenarization,df_time,df_scenario,load,get_data,add_data,time_series,constant,db_value"]},
    "C19": {"specs": ["c19"], "also": ["c14:merged,investment,operational"]},
    "C20": {"specs": ["c20"], "rules": ["state:simulation.decision_tree"], "also": ["c21:build"]},
    "C21": {"specs": ["c21"], "rules": ["state:simulation.benders_decomposed"], "also": ["c20:leaves,traverse,prob_root,prob_child,add_coupling", "c29:run,benders,merge", "c14:risk", "c19:investment_variables,investment_constraints,investment_objectives,operational_variables,operational_constraints,operational_objectives"]},
    "C22": {"specs": ["c22"], "rules": ["state:simulation.output_values"]},
    "C23": {"specs": ["c23"], "rules": ["state:model.resolve_library,model.library"], "also": ["c25:library", "c31:model,model_ports,variable,port_field_def,comparison,bounds,default_bounds,parameters"]},
    "C26": {"specs": ["c26"], "rules": ["state:input_converter.src.converter,input_converter.src.utils"], "also": ["c28:param_p_min_cluster,param_nb_units_min,param_nb_units_max,param_nb_units_max_variation_forward,param_nb_units_max_variation_backward,calc_thermal,calc_binding,calc_link,execute"]},
    "C27": {"specs": ["c27"], "rules": ["state:pypsa_converter"]},
    "C28": {"specs": ["c28"], "rules": ["state:input_converter.src.data_preprocessing"], "also": ["c26:batteries"]},
    "C29": {"specs": ["c29"], "rules": ["state:simulation.runner"], "also": ["c21:run"]},
    "C25": {"specs": ["c25"], "rules": ["yaml_schema"], "also": ["c18:builder_file"]},
    "C24": {"specs": ["c24"], "rules": ["state:study.resolve_components,study.network"], "also": ["c15:connect,connection,network,get_component", "c25:system"]},
    "C34": {"specs": ["c34"], "rules": ["state:simulation.optimization"], "also": ["c15:register_all,iterate", "c30:all_listed"]},
    "C35": {"specs": ["c35"], "rules": ["state"], "also": ["c30:fresh,empty,network_apart", "c20:distinct", "c11:own_sum,own_difference,own_opposite,own_product,own_quotient,own_terms", "c28:fresh"]},
}
