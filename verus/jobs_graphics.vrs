//@include jobs.vrs
//@recontract Renderer::process_command
    ensures command.kind == CommandType::Graphics ==> job(*final(self)) == performed(job(*old(self)), *command)
//@end
