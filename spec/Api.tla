-------------------------------- MODULE Api --------------------------------
(***************************************************************************)
(* What Introspect says: the requests with their parameters and results,   *)
(* the notifications with their parameters, and the types.  Everything in  *)
(* the order of its name.                                                  *)
(***************************************************************************)
EXTENDS Sequences, Naturals

ErrorType == "$ref:TunnelProxyError"

\* << name, << <<parameter, type>>, ... >>, << <<result, type>>, ... >> >>
Methods == <<
    << "RemoteProxy.Hello", <<>>, << <<"apiVersion", "String">>, <<"name", "String">>, <<"server", "String">>, <<"version", "String">> >> >>,
    << "RemoteProxy.Introspect", <<>>, << <<"methods", "Object">>, <<"notifications", "Object">>, <<"types", "Object">> >> >>,
    << "TunnelProxy.DisconnectClient", << <<"socketAddress", "UInt">> >>, << <<"tunnelProxyError", ErrorType>> >> >>,
    << "TunnelProxy.Ping", << <<"timestamp", "UInt">> >>, << <<"timestamp", "UInt">> >> >>,
    << "TunnelProxy.RegisterClient", << <<"clientName", "String">>, <<"clientUuid", "Uuid">>, <<"serverUuid", "Uuid">> >>, << <<"tunnelProxyError", ErrorType>> >> >>,
    << "TunnelProxy.RegisterServer", << <<"serverName", "String">>, <<"serverUuid", "Uuid">> >>, << <<"slipEnabled", "Bool">>, <<"tunnelProxyError", ErrorType>> >> >>
>>

Notifications == <<
    << "RemoteProxy.TunnelEstablished", << <<"name", "String">>, <<"uuid", "String">> >> >>,
    << "TunnelProxy.ClientConnected", << <<"clientName", "String">>, <<"clientPeerAddress", "String">>, <<"clientUuid", "String">>, <<"socketAddress", "UInt">> >> >>,
    << "TunnelProxy.ClientDisconnected", << <<"socketAddress", "UInt">> >> >>
>>

\* in the order of their values
Errors == <<"NoError", "InvalidUuid", "InternalServerError", "ServerNotFound", "ForbiddenCall", "AlreadyRegistered", "NotRegistered", "UnknownSocketAddress">>
Basic == <<"Uuid", "String", "Int", "UInt", "Double", "Bool", "Variant", "Object">>
Types == << <<"BasicType", Basic>>, <<"TunnelProxyError", [k \in 1..Len(Errors) |-> "TunnelProxyError" \o Errors[k]]>> >>
=============================================================================
