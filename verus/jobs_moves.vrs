//@include jobs.vrs
//@recontract Renderer::process_command
    ensures
        command.kind == CommandType::Control || command.kind == CommandType::ContextControl || command.kind == CommandType::Context
            ==> job(*final(self)) == performed(job(*old(self)), *command)
//@end
