//@include settings.vrs
//@recontract CommandHandler for Handler::apply_context
    ensures
        final(context).graphics.stored_graphics == old(context).graphics.stored_graphics,
        final(context).graphics.buffer_graphics == old(context).graphics.buffer_graphics,
//@end
