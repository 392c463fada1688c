------------------------------ MODULE Grammar ------------------------------
(* What the three versions of the description format define: for every kind
   of object its plain fields, its children with the way they are built, its
   alternative (snake-case) names, which fields are required, restricted or
   have a default.  Written from the format documents.                     *)
EXTENDS Text

W(s) == TLCEval(IF s = "" THEN {} ELSE Range(Split(s, " ")))
(* "a=x b=y"  to  [a |-> "x", b |-> "y"] *)
PairsOf(s) == IF s = "" THEN {} ELSE {Split(p, "=") : p \in Range(Split(s, " "))}
M(s) == LET ps == PairsOf(s) IN TLCEval([k \in {p[1] : p \in ps} |-> (CHOOSE p \in ps : p[1] = k)[2]])
(* builders: "Info", "list:str", "map:ref:Schema", ... outermost first *)
B(s) == LET m == M(s) IN TLCEval([k \in DOMAIN m |-> Split(m[k], ":")])

Cls(f, c, a) == [f |-> W(f), c |-> B(c), a |-> M(a), req |-> {}, restr |-> {}, dflt |-> <<>>, creq |-> {}, wr |-> W("")]
Req(x, s) == [x EXCEPT !.req = W(s)]
CReq(x, s) == [x EXCEPT !.creq = W(s)]
Wr(x, s) == [x EXCEPT !.wr = W(s)]

(* ------------------------------------------------------------- 1.2 ---- *)
DT12 == "type $ref format defaultValue enum minimum maximum uniqueItems"
DA12 == "type_=type ref=$ref format_=format default_value=defaultValue unique_items=uniqueItems"
G12 ==
  [Items |-> Cls("$ref type format", "", "ref=$ref type_=type format_=format"),
   Scope |-> Req(Cls("scope description", "", ""), "scope"),
   LoginEndpoint |-> Req(Cls("url", "", ""), "url"),
   Implicit |-> CReq(Cls("tokenName", "loginEndpoint=LoginEndpoint", "token_name=tokenName login_endpoint=loginEndpoint"), "loginEndpoint"),
   TokenRequestEndpoint |-> Req(Cls("url clientIdName clientSecretName", "",
        "client_id_name=clientIdName client_secret_name=clientSecretName"), "url"),
   TokenEndpoint |-> Req(Cls("url tokenName", "", "token_name=tokenName"), "url"),
   AuthorizationCode |-> Cls("", "tokenRequestEndpoint=TokenRequestEndpoint tokenEndpoint=TokenEndpoint",
        "token_request_endpoint=tokenRequestEndpoint token_endpoint=tokenEndpoint"),
   GrantTypes |-> Cls("", "implicit=Implicit authorization_code=AuthorizationCode", ""),
   Authorizations |-> Cls("scope description", "", ""),
   Authorization |-> Cls("type passAs keyname", "scopes=list:Scope grantTypes=GrantTypes",
        "type_=type pass_as=passAs grant_types=grantTypes"),
   ResponseMessage |-> Req(Cls("code message responseModel", "", "response_model=responseModel"), "code message"),
   Parameter |-> Req(Cls(DT12 \o " paramType name description required allowMultiple", "items=Items",
        DA12 \o " param_type=paramType allow_multiple=allowMultiple"), "paramType name"),
   Operation |-> Req(Cls(DT12 \o " method summary notes nickname produces consumes deprecated",
        "items=Items authorizations=map:list:Authorizations parameters=list:Parameter responseMessages=list:ResponseMessage",
        DA12 \o " response_messages=responseMessages"), "method nickname"),
   Api |-> Req(Cls("path description", "operations=list:Operation", ""), "path"),
   Property |-> Cls(DT12 \o " description", "items=Items", DA12),
   Model |-> CReq(Req(Cls("id description required subTypes discriminator", "properties=map:Property",
        "id_=id sub_types=subTypes"), "id"), "properties"),
   ApiDeclaration |-> CReq(Req(Cls("swaggerVersion apiVersion basePath resourcePath produces consumes description",
        "apis=list:Api models=map:Model authorizations=map:list:Authorizations",
        "swagger_version=swaggerVersion api_version=apiVersion base_path=basePath resource_path=resourcePath"),
        "swaggerVersion basePath"), "apis"),
   Info |-> Req(Cls("title description termsOfServiceUrl contact license licenseUrl", "",
        "terms_of_service_url=termsOfServiceUrl license_url=licenseUrl"), "title description"),
   ResourceInListing |-> Cls("path description", "", ""),
   ResourceListing |-> Req(Cls("swaggerVersion apiVersion",
        "apis=list:ResourceInListing info=Info authorizations=map:Authorization",
        "swagger_version=swaggerVersion api_version=apiVersion"), "swaggerVersion")]

(* ------------------------------------------------------------- 2.0 ---- *)
BS20 == "type format default maximum exclusiveMaximum minimum exclusiveMinimum maxLength minLength maxItems minItems multipleOf enum pattern uniqueItems"
BA20 == "type_=type format_=format exclusive_maximum=exclusiveMaximum exclusive_minimum=exclusiveMinimum max_length=maxLength min_length=minLength max_items=maxItems min_items=minItems multiple_of=multipleOf unique_items=uniqueItems"
Csv(x) == [x EXCEPT !.dflt = [collectionFormat |-> <<"s", "csv">>]]
G20 ==
  [Reference |-> Wr(Cls("$ref", "", "ref=$ref"), "$ref"),
   XMLObject |-> Cls("name namespace prefix attribute wrapped", "", ""),
   ExternalDocumentation |-> Cls("description url", "", ""),
   Tag |-> Cls("name description", "externalDocs=ExternalDocumentation", "external_docs=externalDocs"),
   Items |-> Csv(Cls(BS20 \o " collectionFormat", "items=Items", BA20 \o " collection_format=collectionFormat")),
   Schema |-> Wr([Cls(BS20 \o " $ref maxProperties minProperties title description discriminator readOnly example required",
        "xml=XMLObject externalDocs=ExternalDocumentation items=Schema allOf=list:Schema properties=map:Schema additionalProperties=bool:Schema",
        BA20 \o " ref=$ref max_properties=maxProperties min_properties=minProperties read_only=readOnly external_docs=externalDocs all_of=allOf additional_properties=additionalProperties")
        EXCEPT !.dflt = [required |-> <<"a", <<>>>>]], "$ref"),
   Contact |-> Cls("name url email", "", ""),
   License |-> Cls("name url", "", ""),
   Info |-> Cls("version title description termsOfService", "contact=Contact license=License", "terms_of_service=termsOfService"),
   Parameter |-> Csv(Cls(BS20 \o " name in required collectionFormat description allowEmptyValue", "schema=Schema items=Items",
        BA20 \o " in_=in collection_format=collectionFormat allow_empty_value=allowEmptyValue")),
   Header |-> Csv(Cls(BS20 \o " collectionFormat description", "items=Items", BA20 \o " collection_format=collectionFormat")),
   Response |-> Cls("description examples", "schema=Schema headers=map:Header", ""),
   Operation |-> Cls("operationId deprecated description summary",
        "tags=list:str consumes=list:str produces=list:str schemes=list:str parameters=list:ref:Parameter responses=map:ref:Response security=list:map:list:str externalDocs=ExternalDocumentation",
        "operation_id=operationId external_docs=externalDocs"),
   PathItem |-> Wr(Cls("$ref", "get=Operation put=Operation post=Operation delete=Operation options=Operation head=Operation patch=Operation parameters=list:ref:Parameter",
        "ref=$ref"), "$ref"),
   SecurityScheme |-> Cls("type description name in flow authorizationUrl tokenUrl", "scopes=map:str", "type_=type in_=in"),
   Swagger |-> Cls("swagger host basePath",
        "info=Info schemes=list:str consumes=list:str produces=list:str paths=map:PathItem definitions=map:Schema parameters=map:Parameter responses=map:Response securityDefinitions=map:SecurityScheme security=list:map:list:str tags=list:Tag externalDocs=ExternalDocumentation",
        "base_path=basePath security_definitions=securityDefinitions external_docs=externalDocs")]

(* ------------------------------------------------------------- 3.0 ---- *)
SchemaC == "discriminator=Discriminator xml=XML_ externalDocs=ExternalDocumentation allOf=list:ref:Schema oneOf=list:ref:Schema anyOf=list:ref:Schema not=ref:Schema items=ref:Schema properties=map:ref:Schema additionalProperties=bool:ref:Schema"
SchemaA == "multiple_of=multipleOf exclusive_maximum=exclusiveMaximum exclusive_minimum=exclusiveMinimum max_length=maxLength min_length=minLength max_items=maxItems min_items=minItems unique_items=uniqueItems max_properties=maxProperties min_properties=minProperties enum_=enum type_=type format_=format read_only=readOnly write_only=writeOnly xml_=xml external_docs=externalDocs all_of=allOf one_of=oneOf any_of=anyOf not_=not additional_properties=additionalProperties"
ParamF == "name in description required deprecated allowEmptyValue style explode allowReserved example"
ParamC == "examples=map:ref:Example schema=ref:Schema content=map:MediaType"
ParamA == "in_=in allow_empty_value=allowEmptyValue allow_reserved=allowReserved"
G30 ==
  [Reference |-> Wr(Req(Cls("$ref", "", "ref=$ref"), "$ref"), "$ref"),
   Contact |-> Cls("name url email", "", ""),
   License |-> Req(Cls("name url", "", ""), "name"),
   Info |-> Req(Cls("title description termsOfService version", "contact=Contact license=License",
        "terms_of_service=termsOfService"), "title version"),
   ServerVariable |-> Req(Cls("default description", "enum=list:str", "enum_=enum"), "default"),
   Server |-> Req(Cls("url description", "variables=map:ServerVariable", ""), "url"),
   Example |-> Cls("summary description value externalValue", "", "external_value=externalValue"),
   XML_ |-> Cls("name namespace prefix attribute wrapped", "", ""),
   ExternalDocumentation |-> Req(Cls("description url", "", ""), "url"),
   Discriminator |-> Cls("propertyName", "mapping=map:str", "property_name=propertyName"),
   Schema |-> Cls("title multipleOf maximum exclusiveMaximum minimum exclusiveMinimum maxLength minLength pattern maxItems minItems uniqueItems maxProperties minProperties required enum type description format default nullable readOnly writeOnly example deprecated",
        SchemaC, SchemaA),
   Parameter |-> Req(Cls(ParamF, ParamC, ParamA), "name in"),
   Header |-> [Cls(ParamF, ParamC, ParamA) EXCEPT !.restr = {"name", "in"}, !.dflt = [in |-> <<"s", "header">>]],
   Encoding |-> Cls("contentType style explode allowReserved", "headers=map:ref:Header",
        "content_type=contentType allow_reserved=allowReserved"),
   MediaType |-> Cls("example", "schema=ref:Schema examples=map:ref:Example encoding=map:Encoding", ""),
   RequestBody |-> [Cls("description required", "content=map:MediaType", "") EXCEPT !.creq = {"content"}],
   Link |-> Cls("operationRef operationId requestBody description", "server=Server parameters=map:str",
        "operation_ref=operationRef operation_id=operationId request_body=requestBody"),
   Response |-> Req(Cls("description", "headers=map:ref:Header content=map:MediaType links=map:ref:Link", ""), "description"),
   OAuthFlow |-> [Cls("authorizationUrl tokenUrl refreshUrl", "scopes=map:str",
        "authorization_url=authorizationUrl token_url=tokenUrl refresh_url=refreshUrl") EXCEPT !.creq = {"scopes"}],
   OAuthFlows |-> Cls("", "implicit=OAuthFlow password=OAuthFlow clientCredentials=OAuthFlow authorizationCode=OAuthFlow",
        "client_credentials=clientCredentials authorization_code=authorizationCode"),
   SecurityScheme |-> Req(Cls("type description name in scheme bearerFormat openIdConnectUrl", "flows=OAuthFlows",
        "type_=type in_=in bearer_format=bearerFormat openid_connect_url=openIdConnectUrl"), "type"),
   Operation |-> Cls("summary description operationId deprecated",
        "externalDocs=ExternalDocumentation tags=list:str parameters=list:ref:Parameter requestBody=ref:RequestBody responses=map:ref:Response security=list:map:list:str servers=list:Server callbacks=map:ref:Callback",
        "external_docs=externalDocs operation_id=operationId request_body=requestBody"),
   PathItem |-> Wr(Cls("$ref summary description",
        "get=Operation put=Operation post=Operation delete=Operation options=Operation head=Operation patch=Operation trace=Operation servers=list:Server parameters=list:ref:Parameter",
        "ref=$ref"), "$ref"),
   Components |-> Cls("", "schemas=map:ref:Schema responses=map:ref:Response parameters=map:ref:Parameter examples=map:ref:Example requestBodies=map:ref:RequestBody headers=map:ref:Header securitySchemes=map:ref:SecurityScheme links=map:ref:Link callbacks=map:ref:Callback",
        "request_bodies=requestBodies security_schemes=securitySchemes"),
   Tag |-> Req(Cls("name description", "externalDocs=ExternalDocumentation", "external_docs=externalDocs"), "name"),
   OpenApi |-> Cls("openapi",
        "info=Info servers=list:Server paths=map:PathItem components=Components security=list:map:list:str tags=list:Tag externalDocs=ExternalDocumentation",
        "external_docs=externalDocs")]

Gram(v) == CASE v = "1.2" -> G12 [] v = "2.0" -> G20 [] v = "3.0.0" -> G30
(* a builder head that is a class name *)
Wrappers == {"list", "map", "ref", "bool", "str"}
(* 3.0 Callback is a map of path items with a name of its own *)
Expand(b) == IF b = <<"Callback">> THEN <<"map", "PathItem">> ELSE b
===========================================================================
